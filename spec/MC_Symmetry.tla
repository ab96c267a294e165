------------------------------ MODULE MC_Symmetry ------------------------------
(***************************************************************************)
(* Why the laws of Symmetry hold (C18): every small case is solved next to  *)
(* its image under every transformation - by each method, and step by step  *)
(* for the unsteady one - and the loads of the image must be the            *)
(* transformed loads.  Transformations act on definitions, at each step, so *)
(* the motion is transformed with the geometry.                             *)
(***************************************************************************)
EXTENDS Cases, Symmetry
CONSTANTS Shapes, Motions, Streams, MaxStep
VARIABLES pick, k, s, z
vars == <<pick, k, s, z>>

KindOf == <<"mirror", "move", "airplanes", "wings", "density", "speed", "size", "unfold", "turn", "split">>
Flip(p) == << p[1], RNeg(p[2]), p[3] >>
\* a half wing, section by section, from its mirrored tip to its mirrored root
Turned180(secs, tip, flop) ==
  LET n == Len(secs) IN
  [i \in 1 .. n |->
     LET x == secs[n + 1 - i]
         y == secs[IF i < n THEN n - i ELSE 1]                        \* what governs the panels up to the next section
     IN  [x EXCEPT !.le = Flip(VSub(x.le, tip)), !.n = << x.n[1], x.n[2], RNeg(x.n[3]) >>,
                   !.ns = y.ns, !.ss = y.ss, !.hinge = y.hinge, !.cst = y.cst, !.defl = IF flop THEN RNeg(y.defl) ELSE y.defl]]
MirrorWing(w) ==
  IF REq(w.n[2], 0)
  THEN [w EXCEPT !.le = Flip(w.le), !.secs = [i \in DOMAIN w.secs |-> LET x == w.secs[i] IN
          [x EXCEPT !.le = Flip(x.le), !.n = Flip(x.n), !.twist = RNeg(@), !.defl = RNeg(@)]]]
  ELSE IF w.sym THEN [w EXCEPT !.le = Flip(w.le), !.secs = [i \in DOMAIN w.secs |-> LET x == w.secs[i] IN
          IF x.cst = "asymmetric" THEN [x EXCEPT !.defl = RNeg(@)] ELSE x]]
  ELSE LET tip == Last(w.secs).le IN [w EXCEPT !.le = Flip(VAdd(w.le, tip)), !.secs = Turned180(w.secs, tip, FALSE)]
UnfoldWing(w) ==
  IF ~w.sym THEN w
  ELSE LET tip == Last(w.secs).le
           left == Turned180(w.secs, tip, FALSE)
           half == SubSeq(left, 1, Len(left) - 1)
           fix(x) == [x EXCEPT !.defl = IF x.cst = "asymmetric" THEN RNeg(@) ELSE @]
           shift == VNeg(Flip(tip))
       IN  [w EXCEPT !.sym = FALSE, !.le = VAdd(w.le, Flip(tip)),
              !.secs = [i \in DOMAIN half |-> fix(half[i])] \o
                       [i \in DOMAIN w.secs |-> [w.secs[i] EXCEPT !.le = VAdd(@, shift)]]]
SplitWing(w, j) ==
  << [w EXCEPT !.secs = SubSeq(w.secs, 1, j)],
     [w EXCEPT !.le = VAdd(w.le, w.secs[j].le),
               !.secs = [i \in 1 .. Len(w.secs) - j + 1 |-> [w.secs[j + i - 1] EXCEPT !.le = VSub(@, w.secs[j].le)]]] >>
MapPoints(w, F(_), G(_)) ==         \* F on points, G on directions
  [w EXCEPT !.le = F(w.le), !.c = G(w.c), !.n = G(w.n),
             !.secs = [i \in DOMAIN w.secs |-> [w.secs[i] EXCEPT !.le = G(@), !.n = G(@)]]]
Wings(def, F(_)) == [a \in DOMAIN def |-> [def[a] EXCEPT !.wings = [w \in DOMAIN def[a].wings |-> F(def[a].wings[w])]]]
TurnY(v, deg) == LET t == DegToRad(deg) IN
  << RSub(RMul(v[1], RCos(t)), RMul(v[3], RSin(t))), v[2], RAdd(RMul(v[1], RSin(t)), RMul(v[3], RCos(t))) >>

Fac == RRat(7, 4)
Far == <<3, -7, 2>>
Angle == 25
\* the image of the definitions
Image(kind, def) ==
  LET refs(F(_), d) == [a \in DOMAIN d |-> [d[a] EXCEPT !.ref = F(@)]] IN
  CASE kind = "mirror" -> refs(Flip, Wings(def, MirrorWing))
    [] kind = "move"   -> LET f(p) == VAdd(p, Far) g(p) == p IN refs(f, Wings(def, LAMBDA w : [w EXCEPT !.le = f(@)]))
    [] kind = "turn"   -> LET f(p) == TurnY(p, Angle) IN refs(f, Wings(def, LAMBDA w : MapPoints(w, f, f)))
    [] kind = "airplanes" -> [a \in DOMAIN def |-> def[Len(def) + 1 - a]]
    [] kind = "wings"  -> [a \in DOMAIN def |-> [def[a] EXCEPT !.wings = [w \in DOMAIN @ |-> def[a].wings[Len(def[a].wings) + 1 - w]]]]
    [] kind = "unfold" -> Wings(def, UnfoldWing)
    [] kind = "split"  -> [a \in DOMAIN def |-> [def[a] EXCEPT !.wings = Flatten([w \in DOMAIN def[a].wings |->
                              IF Len(def[a].wings[w].secs) > 2 THEN SplitWing(def[a].wings[w], 2) ELSE << def[a].wings[w] >>])]]
    [] kind = "size"   -> LET f(p) == VScale(Fac, p) IN
         [a \in DOMAIN def |-> [def[a] EXCEPT !.ref = f(@), !.s = RMul(RSq(Fac), @), !.c = RMul(Fac, @), !.b = RMul(Fac, @),
            !.wings = [w \in DOMAIN def[a].wings |-> LET x == def[a].wings[w] IN
               [x EXCEPT !.le = f(@), !.secs = [i \in DOMAIN x.secs |-> [x.secs[i] EXCEPT !.le = f(@), !.chord = RMul(Fac, @)]]]]]]
    [] OTHER -> def
ImageOp(kind, op) ==
  CASE kind = "mirror"  -> [op EXCEPT !.beta = RNeg(@)]
    [] kind = "turn"    -> [op EXCEPT !.alpha = RAdd(@, Angle)]
    [] kind = "density" -> [op EXCEPT !.rho = RMul(@, Fac)]
    [] kind = "speed"   -> [op EXCEPT !.v = RMul(@, Fac), !.nu = RMul(@, Fac)]
    [] kind = "size"    -> [op EXCEPT !.nu = RMul(@, Fac)]
    [] OTHER -> op
ImageDt(kind) == CASE kind = "speed" -> RDiv(Dt, Fac) [] kind = "size" -> RMul(Dt, Fac) [] OTHER -> Dt

\* pick = <<shape, motion, stream, method (1 horseshoe, 2 ring, 3 prescribed, 4 free), kind>>
\* shapes 7 and 8: a half wing in three sections, with and without a deflected surface; 9: a wing with ailerons
More(sh, mo, m) ==
  LET up == Heave(mo, m) IN
  CASE sh \in {7, 8} ->
         << Plane(<<RHalf(1), 1, 0>>, << Wing(<<0, RRat(1, 2), up>>, YY, FALSE, 1,
              << Sec(VZero, 1, YY, 0, IF sh = 8 THEN 9 ELSE 0, 1, Bent), Sec(<<RRat(1, 10), 1, RRat(1, 10)>>, RRat(9, 10), YY, 3, 0, 1, Bent),
                 Sec(<<RRat(1, 5), 2, RRat(2, 5)>>, RRat(6, 10), YY, Pitch(mo, m), 0, 1, Bent) >>) >>) >>
    [] sh = 9 -> << Plane(<<RHalf(1), RRat(1, 5), 0>>, << Wing(<<0, 0, up>>, YY, TRUE, 2,
              << [Sec(VZero, 1, YY, 0, 8, 1, Bent) EXCEPT !.cst = "asymmetric"], Sec(<<RRat(1, 10), 1, 0>>, RRat(9, 10), YY, 0, 0, 1, Bent) >>) >>) >>
    [] OTHER -> Defs(sh, mo, m)
Kind == KindOf[pick[5]]
Steady == pick[4] <= 2
Method == << "horseshoe", "ring", "unsteady", "unsteady" >>[pick[4]]
Base(m) == TLCEval(GeometryOf(More(pick[1], pick[2], m), Op(pick[3], m)))
Img(m)  == TLCEval(GeometryOf(Image(Kind, More(pick[1], pick[2], m)), ImageOp(Kind, Op(pick[3], m))))
Applies(p) ==
  /\ KindOf[p[5]] = "airplanes" => p[1] = 5
  /\ KindOf[p[5]] = "wings" => p[1] \in {4, 6}
  /\ KindOf[p[5]] = "unfold" => p[1] \notin {1, 7, 8}
  \* trailing legs of the steady methods are as long as their wing's span says; a step in the
  \* trailing edge is bridged within a wing, not between wings
  /\ KindOf[p[5]] = "split" => p[1] = 7 /\ p[4] > 2
  /\ p[4] <= 2 => p[2] = 1
Init == pick \in {p \in Shapes \X Motions \X Streams \X (1 .. 4) \X (1 .. Len(KindOf)) : Applies(p)} /\ k = -1
        /\ s = [airplanes |-> <<>>] /\ z = [airplanes |-> <<>>]
Start == /\ k = -1 /\ k' = 0 /\ UNCHANGED pick
         /\ s' = IF Steady THEN SolveSteady(Base(0), Method) ELSE FirstStep(Base(0), Dt, TRUE)
         /\ z' = IF Steady THEN SolveSteady(Img(0), Method) ELSE FirstStep(Img(0), ImageDt(Kind), TRUE)
Step  == /\ k >= 0 /\ k < MaxStep /\ ~Steady /\ k' = k + 1 /\ UNCHANGED pick
         /\ s' = NextStep(s, Base(k + 1), k + 1, Dt, pick[4] = 3, TRUE)
         /\ z' = NextStep(z, Img(k + 1), k + 1, ImageDt(Kind), pick[4] = 3, TRUE)
Next == Start \/ Step

Loads(t) == [steps |-> << [a \in DOMAIN t.airplanes |-> LET x == t.airplanes[a] IN
                            [tf |-> x.tf, tm |-> x.tm, cf |-> x.cf, cm |-> x.cm]] >>, finals |-> <<>>]
Tr == [kind |-> Kind, x |-> CASE Kind = "airplanes" -> << 2, 1 >> [] Kind \in {"density", "speed", "size"} -> Fac [] OTHER -> 1]
Solved == k >= 0
Law == Solved => StepsClose(Loads(z).steps, Transform(Tr, Loads(s)).steps, [f |-> 10, m |-> 50], RPow(10, -7))
\* transformations form groups: undoing one gives the loads back, and different ones commute
Back == CASE Kind = "airplanes" -> Tr [] Kind \in {"density", "speed", "size"} -> [Tr EXCEPT !.x = RDiv(1, Fac)] [] OTHER -> Tr
Undone == Solved => StepsClose(Transform(Back, Transform(Tr, Loads(s))).steps, Loads(s).steps, [f |-> 10, m |-> 50], RPow(10, -9))
Other == [kind |-> "mirror", x |-> 1]
Commute == Solved => StepsClose(Transform(Other, Transform(Tr, Loads(s))).steps, Transform(Tr, Transform(Other, Loads(s))).steps,
                                [f |-> 10, m |-> 50], RPow(10, -9))
\* the loads are not trivially the same: something lifts
Alive == Solved => \E a \in DOMAIN s.airplanes : RLt(RRat(1, 100), VNorm(s.airplanes[a].tf))
=============================================================================
