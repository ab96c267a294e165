-------------------------------- MODULE Solver --------------------------------
(***************************************************************************)
(* An executable vortex lattice method over the relations of Uvlm: placing  *)
(* the vortices, solving the flow-tangency equations, loading the panels,   *)
(* and the unsteady step (shed and convect the wake, solve, load).          *)
(* The models MC_Uvlm and MC_Symmetry run it on small lattices and check    *)
(* the guarantees of C09 - C13, C18 and C19 over whole histories; recorded  *)
(* runs of the implementation are judged by the same relations in T_Uvlm.   *)
(***************************************************************************)
EXTENDS Uvlm, Mesh

(************************* systems of linear equations *********************)
\* Gauss-Jordan with partial pivoting on the augmented matrix M
RECURSIVE Reduce(_, _)
Reduce(M, c) ==
  IF c > Len(M) THEN M
  ELSE LET n == Len(M)
           best == FoldLeft(LAMBDA b, r : IF RLt(RAbs(M[b][c]), RAbs(M[r][c])) THEN r ELSE b, c, [k \in 1 .. n - c |-> c + k])
           P == [r \in 1 .. n |-> IF r = c THEN M[best] ELSE IF r = best THEN M[c] ELSE M[r]]
           pivot == TLCEval([q \in 1 .. n + 1 |-> RDiv(P[c][q], P[c][c])])
       IN  Reduce(TLCEval([r \in 1 .. n |-> IF r = c THEN pivot
                            ELSE [q \in 1 .. n + 1 |-> RSub(P[r][q], RMul(P[r][c], pivot[q]))]]), c + 1)
SolveLinear(A, b) ==
  LET n == Len(A)
      R == Reduce(TLCEval([r \in 1 .. n |-> A[r] \o <<b[r]>>]), 1)
  IN  TLCEval([r \in 1 .. n |-> R[r][n + 1]])

(*************************** states of the flow ****************************)
MapPanels(s, F(_, _, _, _)) ==
  [s EXCEPT !.airplanes = TLCEval([a \in DOMAIN s.airplanes |->
     [s.airplanes[a] EXCEPT !.wings = [w \in DOMAIN s.airplanes[a].wings |->
        LET wing == s.airplanes[a].wings[w] IN
        [wing EXCEPT !.panels = [i \in DOMAIN wing.panels |-> [j \in DOMAIN wing.panels[i] |-> F(a, w, i, j)]]]]]])]
\* place of panel (a, w, i, j) in AllPanels(s)
Place1(s, a, w, i, j) ==
  LET ws == s.airplanes[a].wings
      size(x) == Rows(x) * Cols(x)
      sum(seq) == FoldLeft(LAMBDA t, x : t + size(x), 0, seq)
      before == sum(Flatten([b \in 1 .. a - 1 |-> s.airplanes[b].wings])) + sum(SubSeq(ws, 1, w - 1))
  IN  before + (i - 1) * Cols(ws[w]) + j

\* vortices on every panel, strength one
Lattices(s, method, dt) ==
  MapPanels(s, LAMBDA a, w, i, j :
    LET wing == s.airplanes[a].wings[w]
        p == wing.panels[i][j]
        v == IF method = "horseshoe" THEN HorseshoePlace(wing, i, j, s.op)
             ELSE VortexPlace(wing, i, j, IF method = "unsteady" THEN VScale(RMul(RRat(1, 4), dt), Freestream(s.op)) ELSE VZero)
        q == [vfl |-> v.fl, vfr |-> v.fr, vbl |-> v.bl, vbr |-> v.br, b1 |-> v.fr, b2 |-> v.fl, g |-> 1] @@ p
    IN  IF method = "ring" /\ i = Rows(wing) THEN [h |-> TrailerPlace(q, wing, s.op) @@ [g |-> 1]] @@ q ELSE q)
UnitVel(q, x, method) ==
  IF method = "horseshoe" THEN HorseshoeVel(x, Ring(q), 1, 0)
  ELSE VAdd(RingVel(x, Ring(q), 1, 0), IF "h" \in DOMAIN q THEN HorseshoeVel(x, q.h, 1, 0) ELSE VZero)
WithStrengths(s, g) ==
  MapPanels(s, LAMBDA a, w, i, j :
    LET p == s.airplanes[a].wings[w].panels[i][j]
        x == g[Place1(s, a, w, i, j)]
    IN  IF "h" \in DOMAIN p THEN [p EXCEPT !.g = x, !.h.g = x] ELSE [p EXCEPT !.g = x])
\* strengths for which no panel is crossed; motion[k]: apparent velocity of control point k
Strengths(s, method, motion) ==
  LET ps == AllPanels(s)
      vs == TLCEval([k \in DOMAIN s.wake |-> WakeRing(s.wake[k], s.op.nu)])
      onset(p) == VAdd(Freestream(s.op), RingsVel(Colloc(p), vs))
      A == TLCEval([r \in DOMAIN ps |-> [q \in DOMAIN ps |-> VDot(UnitVel(ps[q], Colloc(ps[r]), method), Normal(ps[r]))]])
      b == TLCEval([r \in DOMAIN ps |-> RNeg(VDot(VAdd(onset(ps[r]), motion[r]), Normal(ps[r])))])
  IN  SolveLinear(A, b)

(********************************* loads ***********************************)
\* Load(x): f and m of the panel named x; then totals and coefficients
WithLoads(s, Load(_)) ==
  LET t == MapPanels(s, LAMBDA a, w, i, j :
             LET p == s.airplanes[a].wings[w].panels[i][j]
                 ld == TLCEval(Load(<<a, w, i, j>>))
             IN  [f |-> ld.f, m |-> ld.m] @@ p)
  IN  [t EXCEPT !.airplanes = TLCEval([a \in DOMAIN t.airplanes |->
         LET tf == ToWind(t.op, SumF(t, a)) tm == ToWind(t.op, SumM(t, a)) IN
         [tf |-> tf, tm |-> tm, cf |-> Coefficients(t.op, t.airplanes[a].s, tf),
          cm |-> MomentCoefficients(t.op, t.airplanes[a], tm)] @@ t.airplanes[a]])]

(******************************** methods **********************************)
Still(s) == [k \in DOMAIN AllPanels(s) |-> VZero]
SolveSteady(s, method) ==
  LET t == TLCEval(Lattices(s, method, 0))
      u == TLCEval(WithStrengths(t, Strengths(t, method, Still(t))))
      flow == TLCEval(FlowOf(u, method))
  IN  WithLoads(u, LAMBDA x : IF method = "horseshoe" THEN HorseshoeLoads(u, flow, x)
                              ELSE RingLoads(u, flow, x, LAMBDA leg : VZero, 0, 0))
\* first step: no wake, no motion yet
FirstStep(s, dt, loads) ==
  LET t == TLCEval(Lattices(s, "unsteady", dt))
      u == TLCEval(WithStrengths(t, Strengths(t, "unsteady", Still(t))))
      flow == TLCEval(FlowOf(u, "unsteady"))
  IN  IF loads THEN WithLoads(u, LAMBDA x : RingLoads(u, flow, x, LAMBDA leg : VZero, PanelAt(u, x).g, dt)) ELSE u
\* wakes of all wings after the step from state old (at step k - 1) to the placed lattices t
NextWake(old, t, k, dt, prescribed) ==
  LET flow == TLCEval(FlowOf(old, "unsteady"))
      drift(p) == IF prescribed THEN VScale(dt, Freestream(old.op)) ELSE VScale(dt, Velocity(flow, p))
      ws == WingsOf(t)
      ows == WingsOf(old)
  IN  TLCEval(Flatten([n \in DOMAIN ws |->
        Flatten(StepWake(WakeOfWing(old, k - 1, n), TrailL(ws[n]), TrailR(ws[n]), TrailG(ows[n]), dt, drift))]))
\* s: the geometry and operating point of step k, old: the solved step before
NextStep(old, s, k, dt, prescribed, loads) ==
  LET l == TLCEval(Lattices(s, "unsteady", dt))
      t == TLCEval([l EXCEPT !.wake = NextWake(old, l, k, dt, prescribed)])
      ps == AllPanels(t)
      qs == AllPanels(old)
      motion == TLCEval([n \in DOMAIN ps |-> Apparent(Colloc(ps[n]), Colloc(qs[n]), dt)])
      u == TLCEval(WithStrengths(t, Strengths(t, "unsteady", motion)))
      flow == TLCEval(FlowOf(u, "unsteady"))
      load(x) == LET p == PanelAt(u, x) q == PanelAt(old, x)
                     mv(leg) == CASE leg = 1 -> Apparent(RightMid(p), RightMid(q), dt)
                                  [] leg = 2 -> Apparent(FrontMid(p), FrontMid(q), dt)
                                  [] leg = 3 -> Apparent(LeftMid(p), LeftMid(q), dt)
                 IN  RingLoads(u, flow, x, mv, RSub(p.g, q.g), dt)
  IN  IF loads THEN WithLoads(u, load) ELSE u

(**************************** geometry of a state **************************)
\* an airplane definition: [ref, s, c, b, wings], wings being wing records of Mesh
GeometryOf(def, op) ==
  [op |-> op, wake |-> <<>>, airplanes |-> TLCEval([a \in DOMAIN def |->
     [ref |-> def[a].ref, s |-> def[a].s, c |-> def[a].c, b |-> def[a].b,
      wings |-> [w \in DOMAIN def[a].wings |-> [panels |-> Lattice(def[a].wings[w]), span |-> Span(def[a].wings[w])]]]])]
=============================================================================
