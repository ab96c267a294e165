-------------------------------- MODULE MC_Uvlm --------------------------------
(***************************************************************************)
(* Histories of the unsteady method on small lattices (C09 - C13, C19):     *)
(* every shape, motion, operating point and wake model within bounds is     *)
(* solved step by step by Solver; the invariants state what must hold of    *)
(* every reachable instant.  A case is a tuple of integers, `pick`.         *)
(***************************************************************************)
EXTENDS Cases
CONSTANTS Shapes, Motions, Streams, MaxStep
VARIABLES pick, k, s, shed
vars == <<pick, k, s, shed>>

\* pick = <<shape, motion, stream, wake model (1 prescribed, 2 free), first step with results>>
Geometry(m) == TLCEval(GeometryOf(Defs(pick[1], pick[2], m), Op(pick[3], m)))
Prescribed == pick[4] = 1
Wanted(m) == m >= pick[5]

Trail(t) == TLCEval([n \in DOMAIN WingsOf(t) |-> TrailG(WingsOf(t)[n])])
Empty == [op |-> [rho |-> 1], wake |-> <<>>, airplanes |-> <<>>]
Init == /\ pick \in Shapes \X Motions \X Streams \X {1, 2} \X {0, 2}
        /\ pick[5] = ((pick[1] + pick[2] + pick[3] + pick[4]) % 2) * 2        \* half of the cases report only from step two on
        /\ k = -1 /\ s = Empty /\ shed = <<>>
Start == /\ k = -1 /\ k' = 0
         /\ s' = FirstStep(Geometry(0), Dt, Wanted(0))
         /\ shed' = << Trail(s') >> /\ UNCHANGED pick
Step  == /\ k >= 0 /\ k < MaxStep /\ k' = k + 1
         /\ s' = NextStep(s, Geometry(k + 1), k + 1, Dt, Prescribed, Wanted(k + 1))
         /\ shed' = Append(shed, Trail(s')) /\ UNCHANGED pick
Next == Start \/ Step

Solved == k >= 0
Tiny == RPow(10, -10)
(* C09 *)
TangencyHolds == Solved =>
  LET flow == TLCEval(FlowOf(s, "unsteady"))
      old == TLCEval(IF k = 0 THEN s ELSE Geometry(k - 1))
  IN  \A x \in AllIds(s) : Tangent(flow, PanelAt(s, x),
        IF k = 0 THEN VZero ELSE Apparent(Colloc(PanelAt(s, x)), Colloc(PanelAt(old, x)), Dt))
(* C12 *)
Rowed(n) == WakeOfWing(s, k, n)
WakeComplete == Solved => Len(s.wake) = k * SumInts([n \in DOMAIN WingsOf(s) |-> Cols(WingsOf(s)[n])])
\* whatever is shed keeps its strength for ever, and ages by one step per step
Permanent == Solved => \A n \in DOMAIN WingsOf(s) : \A i \in 1 .. k : \A j \in 1 .. Cols(WingsOf(s)[n]) :
  LET r == Rowed(n)[i][j] IN REq(r.g, shed[k - i + 1][n][j]) /\ RClose(r.age, RMul(i - 1, Dt), Tiny)
Shared == Solved => \A n \in DOMAIN WingsOf(s) : LET rows == Rowed(n) IN \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] :
  /\ j < Len(rows[i]) => VClose(rows[i][j].fr, rows[i][j + 1].fl, Tiny) /\ VClose(rows[i][j].br, rows[i][j + 1].bl, Tiny)
  /\ i < Len(rows) => VClose(rows[i][j].bl, rows[i + 1][j].fl, Tiny) /\ VClose(rows[i][j].br, rows[i + 1][j].fr, Tiny)
Attached == Solved /\ k > 0 => \A n \in DOMAIN WingsOf(s) : \A j \in 1 .. Cols(WingsOf(s)[n]) :
  LET te == WingsOf(s)[n].panels[Rows(WingsOf(s)[n])][j] IN
  VClose(Rowed(n)[1][j].fl, te.vbl, Tiny) /\ VClose(Rowed(n)[1][j].fr, te.vbr, Tiny)
\* a prescribed wake lies where the trailing edge was, carried by the streams since
Carried(m) == FoldLeft(LAMBDA acc, q : VAdd(acc, VScale(Dt, Freestream(Op(pick[3], q)))), VZero, [q \in 1 .. k - m |-> m + q - 1])
PrescribedForm == Solved /\ k > 0 /\ Prescribed => \A i \in 1 .. k :
  LET m == k - i + 1                                             \* the step that shed row i
      was == TLCEval(WingsOf(Lattices(Geometry(m), "unsteady", Dt)))
  IN  \A n \in DOMAIN was : \A j \in 1 .. Cols(was[n]) :
        /\ VClose(Rowed(n)[i][j].fl, VAdd(TrailL(was[n])[j], Carried(m)), Tiny)
        /\ VClose(Rowed(n)[i][j].fr, VAdd(TrailR(was[n])[j], Carried(m)), Tiny)
(* C13 *)
Gate == Solved => \A x \in AllIds(s) : Wanted(k) = ("f" \in DOMAIN PanelAt(s, x))
(* C10, C11 *)
Loaded == Solved /\ Wanted(k)
\* moving the point moments are taken about by d changes the moment by F x d, and nothing else
Transfer == Loaded /\ k <= 1 => LET d == <<1, 2, -1>>
    t == TLCEval([s EXCEPT !.airplanes = [a \in DOMAIN s.airplanes |-> [s.airplanes[a] EXCEPT !.ref = VAdd(@, d)]]])
    flow == TLCEval(FlowOf(s, "unsteady"))
    ld(z, x) == RingLoads(z, flow, x, LAMBDA leg : VZero, 0, 0)
  IN \A x \in AllIds(s) : LET one == TLCEval(ld(s, x)) two == TLCEval(ld(t, x)) IN
       VClose(two.f, one.f, Tiny) /\ VClose(two.m, VAdd(one.m, VCross(one.f, d)), RPow(10, -8))
\* every segment of the lattice loads it once: the panels' forces sum to the forces on the distinct segments
OnceEach == Loaded /\ k = 0 =>
  LET flow == TLCEval(FlowOf(s, "unsteady"))
      force(g, mid, vec) == SegForce(s.op.rho, g, Velocity(flow, mid), vec)
      wingsum(w) == FoldLeft(LAMBDA acc, x :
          LET p == w.panels[x[1]][x[2]]
              front == force(IF x[1] = 1 THEN p.g ELSE RSub(p.g, w.panels[x[1] - 1][x[2]].g), FrontMid(p), FrontVec(p))
              left == force(IF x[2] = 1 THEN p.g ELSE RSub(p.g, w.panels[x[1]][x[2] - 1].g), LeftMid(p), LeftVec(p))
              right == IF x[2] = Cols(w) THEN force(p.g, RightMid(p), RightVec(p)) ELSE VZero
              rate == VScale(RDiv(RMul(s.op.rho, RMul(p.g, Area(p))), Dt), Normal(p))
          IN  VAdd(acc, VAdd(VAdd(front, left), VAdd(right, rate))), VZero,
          [q \in 1 .. Rows(w) * Cols(w) |-> <<((q - 1) \div Cols(w)) + 1, ((q - 1) % Cols(w)) + 1>>])
  IN  \A a \in DOMAIN s.airplanes :
        VClose(SumF(s, a), FoldLeft(LAMBDA acc, w : VAdd(acc, wingsum(w)), VZero, s.airplanes[a].wings), RPow(10, -8))
\* wind axes only turn the loads: lengths stay, and a force back in geometry axes is the sum of the panels' forces
Turned == Loaded => \A a \in DOMAIN s.airplanes :
  LET f == s.airplanes[a].tf
      back == VAdd(VAdd(VScale(f[1], WindX(s.op)), VScale(f[2], WindY(s.op))), VScale(f[3], WindZ(s.op)))
  IN  VClose(back, SumF(s, a), RPow(10, -8)) /\ RClose(VNorm(f), VNorm(SumF(s, a)), RPow(10, -8))
\* a left-right symmetric flow pushes nowhere sideways
NoSide == Loaded /\ pick[1] \in {2, 3, 4} /\ pick[3] # 2 =>
  LET a == s.airplanes[1] IN RClose(a.tf[2], 0, RPow(10, -8)) /\ RClose(a.tm[1], 0, RPow(10, -8)) /\ RClose(a.tm[3], 0, RPow(10, -8))
(* C19 *)
Lines == Solved /\ k = MaxStep =>
  LET flow == TLCEval(FlowOf(s, "unsteady"))
      te == TEPanels(s)
      a == StreamLine(flow, << StreamSeed(te[1]) >>, 3)
  IN  /\ Len(a) = 4 /\ \A q \in 1 .. 4 : VFinite(a[q])
      \* in a symmetric flow the outermost left and right lines are each other's images
      /\ pick[1] \in {2, 3} /\ pick[3] # 2 =>
           LET b == StreamLine(flow, << StreamSeed(te[Len(te)]) >>, 3)
           IN  \A q \in 1 .. 4 : VClose(b[q], << a[q][1], RNeg(a[q][2]), a[q][3] >>, RPow(10, -7))
=============================================================================
