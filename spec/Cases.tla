-------------------------------- MODULE Cases --------------------------------
(* Small airplanes and their motions, from integers, for the models of the      *)
(* solvers: shape sh, motion mo, stream st, step m.                             *)
EXTENDS Solver

Flat == << <<0, 0>>, <<1, 0>> >>
Bent == << <<0, 0>>, <<RHalf(1), RRat(1, 20)>>, <<1, 0>> >>
Sec(le, chord, n, twist, defl, ns, mcl) ==
  [le |-> le, chord |-> chord, n |-> n, twist |-> twist, cst |-> "symmetric", hinge |-> RRat(3, 4), defl |-> defl,
   ns |-> ns, ss |-> "uniform", mcl |-> mcl]
YY == <<0, 1, 0>>
ZZ == <<0, 0, 1>>
Wing(le, n, sym, nc, secs) == [le |-> le, n |-> n, c |-> <<1, 0, 0>>, sym |-> sym, nc |-> nc, cs |-> "uniform", secs |-> secs]
Plane(ref, wings) == [ref |-> ref, s |-> 2, c |-> 1, b |-> 3, wings |-> wings]

\* state of the motion at step m: heave z, twist of the tip, dihedral rise of the tip
Dt == RRat(1, 20)
Phase(m) == RMul(RRat(m, 5), Pi)
Heave(mo, m) == IF mo = 2 THEN RMul(RRat(1, 10), RSin(Phase(m))) ELSE 0
Pitch(mo, m) == IF mo = 3 THEN RMul(6, RSin(Phase(m))) ELSE 0
Rise(mo, m)  == IF mo = 3 THEN RMul(RRat(1, 5), RSin(Phase(m))) ELSE 0
Op(st, m) == [rho |-> RRat(6, 5), nu |-> IF st = 3 THEN RRat(1, 50) ELSE 0, alpha |-> 5, beta |-> IF st = 2 THEN 6 ELSE 0,
              v |-> IF st = 3 THEN RAdd(8, RSin(Phase(m))) ELSE 8]
Main(mo, m, le, sym, nc, ns, mcl) ==
  Wing(VAdd(le, <<0, 0, Heave(mo, m)>>), YY, sym, nc,
       << Sec(VZero, 1, YY, 0, 0, ns, mcl), Sec(<<RRat(1, 5), RRat(3, 2), Rise(mo, m)>>, RRat(7, 10), YY, Pitch(mo, m), 0, 1, mcl) >>)
Small(mo, m, le, sym) ==
  Wing(VAdd(le, <<0, 0, Heave(mo, m)>>), YY, sym, 1,
       << Sec(VZero, RHalf(1), YY, 0, 0, 1, Flat), Sec(<<0, RRat(4, 5), 0>>, RHalf(1), YY, 0, 0, 1, Flat) >>)
Fin(mo, m, le) ==
  Wing(VAdd(le, <<0, 0, Heave(mo, m)>>), ZZ, FALSE, 1,
       << Sec(VZero, RHalf(1), ZZ, 0, 0, 1, Flat), Sec(<<RRat(1, 10), 0, RHalf(1)>>, RHalf(1), ZZ, 0, 0, 1, Flat) >>)
Defs(sh, mo, m) ==
  CASE sh = 1 -> << Plane(<<RRat(1, 4), 0, 0>>, << Main(mo, m, VZero, FALSE, 1, 1, Flat) >>) >>
    [] sh = 2 -> << Plane(VZero, << Main(mo, m, VZero, TRUE, 1, 1, Bent) >>) >>
    [] sh = 3 -> << Plane(VZero, << Main(mo, m, VZero, TRUE, 2, 1, Flat) >>) >>
    [] sh = 4 -> << Plane(<<RHalf(1), 0, 0>>, << Main(mo, m, VZero, TRUE, 1, 1, Flat), Fin(mo, m, <<2, 0, RRat(1, 3)>>) >>) >>
    [] sh = 5 -> << Plane(VZero, << Main(mo, m, VZero, FALSE, 1, 2, Bent) >>),
                    Plane(<<1, 4, 0>>, << Small(1, m, <<1, 4, RRat(1, 2)>>, TRUE) >>) >>
    [] sh = 6 -> << Plane(VZero, << Main(mo, m, VZero, FALSE, 2, 2, Flat), Small(mo, m, <<2, 0, RRat(1, 4)>>, TRUE) >>) >>
=============================================================================
