--------------------------------- MODULE Flow ---------------------------------
(***************************************************************************)
(* The flow about a set of airplanes at one instant: wind axes, onset flow, *)
(* the vortex lattices of the two steady methods and of the unsteady one,   *)
(* the velocity field, flow tangency, and the loads.                        *)
(*                                                                          *)
(* A state of the flow s is a record                                        *)
(*   op       rho, v, alpha, beta, nu                                       *)
(*   airplanes  sequence of [ref, s, c, b, wings]; a wing has a grid        *)
(*            panels[i][j] (row i from the leading edge, column j from the  *)
(*            left); a panel has corners fl fr bl br, its vortex            *)
(*            vfl vfr vbl vbr and its strength g                            *)
(*   wake     sequence of rings [fl, fr, bl, br, g, age]                    *)
(***************************************************************************)
EXTENDS Panels, BiotSavart

(******************************* wind axes *********************************)
\* geometry axes: x aft, y right, z up.  Wind axes: x against the stream, y right, z down.
FreestreamDir(op) ==
  LET a == DegToRad(op.alpha) b == DegToRad(op.beta) IN
  << RMul(RCos(a), RCos(b)), RNeg(RSin(b)), RMul(RSin(a), RCos(b)) >>
WindX(op) == VNeg(FreestreamDir(op))
WindY(op) ==
  LET a == DegToRad(op.alpha) b == DegToRad(op.beta) IN
  << RMul(RCos(a), RSin(b)), RCos(b), RMul(RSin(a), RSin(b)) >>
WindZ(op) == LET a == DegToRad(op.alpha) IN << RSin(a), 0, RNeg(RCos(a)) >>
ToWind(op, f) == << VDot(f, WindX(op)), VDot(f, WindY(op)), VDot(f, WindZ(op)) >>
Freestream(op) == VScale(op.v, FreestreamDir(op))
DynPressure(op) == RMul(RHalf(op.rho), RSq(op.v))

(******************************** lattices *********************************)
Flatten(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
WingPanels(w) == TLCEval(Flatten(w.panels))
WingsOf(s)  == TLCEval(Flatten([a \in DOMAIN s.airplanes |-> s.airplanes[a].wings]))
AllPanels(s) == TLCEval(Flatten([k \in DOMAIN WingsOf(s) |-> WingPanels(WingsOf(s)[k])]))
Rows(w) == Len(w.panels)
Cols(w) == Len(w.panels[1])

Ring(p) == [br |-> p.vbr, fr |-> p.vfr, fl |-> p.vfl, bl |-> p.vbl, g |-> p.g, c2 |-> 0]
WakeRing(r, nu) == [br |-> r.br, fr |-> r.fr, fl |-> r.fl, bl |-> r.bl, g |-> r.g, c2 |-> Core2(r.g, r.age, nu)]

\* where the vortex of panel (i, j) of wing w lies
\*   trail: displacement, beyond one panel chord, of the trailing edge's closing leg
VortexPlace(w, i, j, trail) ==
  LET p == w.panels[i][j] IN
  [fl |-> FrontLeftVortex(p), fr |-> FrontRightVortex(p),
   bl |-> IF i < Rows(w) THEN FrontLeftVortex(w.panels[i + 1][j])
          ELSE VAdd(VAdd(FrontLeftVortex(p), VSub(p.bl, p.fl)), trail),
   br |-> IF i < Rows(w) THEN FrontRightVortex(w.panels[i + 1][j])
          ELSE VAdd(VAdd(FrontRightVortex(p), VSub(p.br, p.fr)), trail)]
\* trailing legs reach twenty spans downstream
TrailReach(w, op) == VScale(RMul(20, w.span), FreestreamDir(op))
HorseshoePlace(w, i, j, op) ==
  LET p == w.panels[i][j] IN
  [fl |-> FrontLeftVortex(p), fr |-> FrontRightVortex(p),
   bl |-> VAdd(FrontLeftVortex(p), TrailReach(w, op)), br |-> VAdd(FrontRightVortex(p), TrailReach(w, op))]
\* the trailing vortex that closes ring v of a trailing-edge panel of wing w
TrailerPlace(v, w, op) ==
  [fl |-> v.vbl, fr |-> v.vbr, bl |-> VAdd(v.vbl, TrailReach(w, op)), br |-> VAdd(v.vbr, TrailReach(w, op))]
PlaceClose(v, q, rel, abs) ==
  /\ VNear(v.vfl, q.fl, rel, abs) /\ VNear(v.vfr, q.fr, rel, abs)
  /\ VNear(v.vbl, q.bl, rel, abs) /\ VNear(v.vbr, q.br, rel, abs)

(***************************** velocity field ******************************)
\* the vortices of a state: closed rings and open horseshoes
Trailers(s) ==
  LET te == TLCEval(SelectSeq(AllPanels(s), LAMBDA p : "h" \in DOMAIN p)) IN
  TLCEval([k \in DOMAIN te |-> [br |-> te[k].h.br, fr |-> te[k].h.fr, fl |-> te[k].h.fl, bl |-> te[k].h.bl,
                                g |-> te[k].h.g, c2 |-> 0]])
FlowOf(s, method) ==
  LET ps == AllPanels(s)
      bound == TLCEval([k \in DOMAIN ps |-> Ring(ps[k])])
  IN  CASE method = "horseshoe" -> [v0 |-> Freestream(s.op), rings |-> <<>>, shoes |-> bound]
        [] method = "ring"      -> [v0 |-> Freestream(s.op), rings |-> bound, shoes |-> Trailers(s)]
        [] method = "unsteady"  -> [v0 |-> Freestream(s.op), shoes |-> <<>>,
             rings |-> bound \o TLCEval([k \in DOMAIN s.wake |-> WakeRing(s.wake[k], s.op.nu)])]
Induced(flow, p)  == VAdd(RingsVel(p, flow.rings), HorseshoesVel(p, flow.shoes))
Velocity(flow, p) == VAdd(flow.v0, Induced(flow, p))

\* apparent velocity of a point that was at x0 one step ago
Apparent(x, x0, dt) == VScale(RDiv(-1, dt), VSub(x, x0))

(******************************** loads ************************************)
\* Kutta-Joukowski force on a straight segment of net circulation g
SegForce(rho, g, v, seg) == VScale(RMul(rho, g), VCross(v, seg))
\* centre and vector of a ring's legs
RightVec(p) == VSub(p.vfr, p.vbr)     RightMid(p) == VMid(p.vfr, p.vbr)
FrontVec(p) == VSub(p.vfl, p.vfr)     FrontMid(p) == VMid(p.vfl, p.vfr)
LeftVec(p)  == VSub(p.vbl, p.vfl)     LeftMid(p)  == VMid(p.vbl, p.vfl)
\* circulation of a leg as far as it loads the panel.  On a wing a side leg shared by two
\* neighbours is one segment whose net circulation is the difference of theirs: its force is
\* shared equally.  A front leg loads the panel behind it; nothing is shared between wings.
RightNet(w, i, j) == IF j = Cols(w) THEN w.panels[i][j].g ELSE RHalf(RSub(w.panels[i][j].g, w.panels[i][j + 1].g))
FrontNet(w, i, j) == IF i = 1 THEN w.panels[i][j].g ELSE RSub(w.panels[i][j].g, w.panels[i - 1][j].g)
LeftNet(w, i, j)  == IF j = 1 THEN w.panels[i][j].g ELSE RHalf(RSub(w.panels[i][j].g, w.panels[i][j - 1].g))

Coefficients(op, area, f) ==
  LET q == RMul(DynPressure(op), area) IN << RDiv(RNeg(f[1]), q), RDiv(f[2], q), RDiv(RNeg(f[3]), q) >>
MomentCoefficients(op, a, m) ==
  LET q == RMul(DynPressure(op), a.s) IN
  << RDiv(m[1], RMul(q, a.b)), RDiv(m[2], RMul(q, a.c)), RDiv(m[3], RMul(q, a.b)) >>
=============================================================================
