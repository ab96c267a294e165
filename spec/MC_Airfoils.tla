----------------------------- MODULE MC_Airfoils -----------------------------
(* Exhaustive check of the section definitions (C02) on small camber lines,     *)
(* hinge positions, deflections and all NACA digit combinations in bounds.      *)
EXTENDS Airfoils
CONSTANTS MaxD1, Ts
VARIABLES line, hinge, hist
vars == <<line, hinge, hist>>
Base(a, b) == << <<0, 0>>, <<RRat(1, 4), RRat(a, 20)>>, <<Half, RRat(b, 20)>>, <<RRat(3, 4), RRat(a, 20)>>, <<1, 0>> >>
Defls == {-90, -30, 0, 45, 90}
Init == /\ \E a, b \in 0 .. 2 : line = Base(a, b)
        /\ hinge \in {RRat(1, 10), RRat(3, 10), RRat(6, 10), RRat(9, 10)}
        /\ hist = <<>>
\* a control surface can only be added to a line that is still a function of x
Increasing == \A i \in 1 .. Len(line) - 1 : RLt(RAdd(line[i][1], RPow(10, -6)), line[i + 1][1])
Deflect == /\ Len(hist) < 2 /\ Increasing /\ \E d \in Defls : /\ line' = FlapMcl(line, hinge, d) /\ hist' = Append(hist, d)
           /\ UNCHANGED hinge
Next == Deflect
T == RPow(10, -10)
Behind(c) == {i \in DOMAIN c : RLt(hinge, c[i][1])}
First == hist = <<>>
\* a deflection is rigid behind the hinge, the identity ahead of it, and moves the trailing edge
\* down for a positive angle; deflecting back restores the section
Rigid == First => \A d \in Defls : LET f == FlapMcl(line, hinge, d) hp == HingePoint(line, hinge) IN
  /\ \A i \in DOMAIN line : (i \notin Behind(line)) => f[i] = line[i]
  /\ \A i, j \in Behind(line) : RClose(P2Dist(f[i], f[j]), P2Dist(line[i], line[j]), T)
  /\ \A i \in Behind(line) : RClose(P2Dist(f[i], hp), P2Dist(line[i], hp), T)
  /\ (d > 0 => RLt(f[Len(f)][2], line[Len(line)][2])) /\ (d = 0 => \A i \in DOMAIN f : P2Close(f[i], line[i], T))
  /\ (d < 0 => RLt(line[Len(line)][2], f[Len(f)][2]))
\* sampling: ends are kept, fractions are fractions of the length
SampleOk == LET fr == RLin(0, 1, 9) s == Sample(line, fr) IN
  /\ P2Close(s[1], line[1], T) /\ P2Close(s[9], line[Len(line)], T)
  /\ LET full == FoldLeft(LAMBDA a, i : RAdd(a, P2Dist(line[i], line[i + 1])), 0, [i \in 1 .. Len(line) - 1 |-> i]) IN
     \A i \in 1 .. 8 : RLe(P2Dist(s[i], s[i + 1]), RAdd(RDiv(full, 8), T))
\* the outline built from camber line and half thickness has that camber line
Round == LET umm == [i \in DOMAIN line |-> <<0, RRat(i - 1, 50)>>]
             c == Outline(line, umm) IN
         First => /\ Len(c) = 2 * Len(line) - 1
                  /\ \A i \in DOMAIN line : P2Close(Mcl(c)[i], line[i], T)
\* NACA sections: closed camber line through both ends, continuous at the maximum, symmetric when uncambered
ASSUME \A d1 \in 0 .. MaxD1 : \A d2 \in 0 .. 9 : \A t \in Ts : LET q == NacaParams(d1, d2, t) IN
  /\ RClose(NacaC(q.m, q.p, 0), 0, T) /\ RClose(NacaC(q.m, q.p, 1), 0, T)
  /\ RClose(NacaC(q.m, q.p, q.p), q.m, T)
  /\ RClose(NacaSlope(q.m, q.p, q.p), 0, T)
  /\ RClose(NacaC(q.m, q.p, RAdd(q.p, RPow(10, -7))), q.m, RPow(10, -6))
  /\ \A k \in 0 .. 10 : LET x == RRat(k, 10) u == NacaUpper(q, x) w == NacaLower(q, x) IN
       /\ P2Close(P2Scale(Half, P2Add(u, w)), <<x, NacaC(q.m, q.p, x)>>, T)
       /\ RClose(P2Dist(u, w), RMul(2, NacaT(q.t, x)), T)
       /\ d1 = 0 => RClose(u[2], RNeg(w[2]), T)
=============================================================================
