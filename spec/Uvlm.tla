--------------------------------- MODULE Uvlm ---------------------------------
(***************************************************************************)
(* A solved instant of the flow: indexing of its panels, flow tangency,     *)
(* loads of panels and airplanes, and what its trailing edges shed.         *)
(* ev is a state of Flow that may carry the step number k (unsteady).       *)
(***************************************************************************)
EXTENDS Flow, Wake

T7 == RPow(10, -7)
T9 == RPow(10, -9)
T12 == RPow(10, -12)
Ids(w) == {<<i, j>> : i \in 1 .. Rows(w), j \in 1 .. Cols(w)}
AllIds(ev) == UNION {UNION {{<<a, w, x[1], x[2]>> : x \in Ids(ev.airplanes[a].wings[w])} :
                     w \in DOMAIN ev.airplanes[a].wings} : a \in DOMAIN ev.airplanes}
WingAt(ev, x)  == ev.airplanes[x[1]].wings[x[2]]
PanelAt(ev, x) == ev.airplanes[x[1]].wings[x[2]].panels[x[3]][x[4]]

\* velocity seen at control point x: field, minus own motion
SeenAt(flow, p, motion) == VAdd(Velocity(flow, Colloc(p)), motion)
Tangent(flow, p, motion) ==
  LET v == SeenAt(flow, p, motion) IN
  RClose(VDot(v, Normal(p)), 0, RMul(T7, RAdd(VNorm(flow.v0), RAdd(VNorm(motion), VNorm(v)))))


(*************************** C10: panel loads ******************************)
\* loads of a ring panel: legs (right, front, left) with net circulation and the velocity at
\* their centres; unsteady: dg = change of strength over the step dt (dt = 0 means steady)
RingLoads(ev, flow, x, motion(_), dg, dt) ==
  LET w == WingAt(ev, x)
      p == PanelAt(ev, x)
      ref == ev.airplanes[x[1]].ref
      rho == ev.op.rho
      legs == << [m |-> RightMid(p), d |-> RightVec(p), g |-> RightNet(w, x[3], x[4])],
                 [m |-> FrontMid(p), d |-> FrontVec(p), g |-> FrontNet(w, x[3], x[4])],
                 [m |-> LeftMid(p),  d |-> LeftVec(p),  g |-> LeftNet(w, x[3], x[4])] >>
      fs == TLCEval([k \in 1 .. 3 |-> SegForce(rho, legs[k].g, VAdd(Velocity(flow, legs[k].m), motion(k)), legs[k].d)])
      fu == IF REq(dt, 0) THEN VZero
            ELSE VScale(RDiv(RMul(rho, RMul(dg, Area(p))), dt), Normal(p))
      arm(q) == VSub(q, ref)
      mag == RAdd(RMul(T9, RMul(DynPressure(ev.op), Area(p))),
                  RMul(T7, RSum(<<VNorm(fs[1]), VNorm(fs[2]), VNorm(fs[3]), VNorm(fu)>>)))
      far == RSum(<<VNorm(arm(legs[1].m)), VNorm(arm(legs[2].m)), VNorm(arm(legs[3].m)), VNorm(arm(Colloc(p)))>>)
  IN  [f |-> VAdd(VAdd(fs[1], fs[2]), VAdd(fs[3], fu)),
       m |-> VAdd(VAdd(VCross(arm(legs[1].m), fs[1]), VCross(arm(legs[2].m), fs[2])),
                  VAdd(VCross(arm(legs[3].m), fs[3]), VCross(arm(Colloc(p)), fu))),
       tf |-> mag, tm |-> RMul(mag, far)]
HorseshoeLoads(ev, flow, x) ==
  LET p == PanelAt(ev, x)
      mid == VMid(p.b1, p.b2)
      f == TLCEval(SegForce(ev.op.rho, p.g, Velocity(flow, mid), VSub(p.b2, p.b1)))
      tf == RAdd(RMul(T9, RMul(DynPressure(ev.op), Area(p))), RMul(T7, VNorm(f)))
      arm == VSub(mid, ev.airplanes[x[1]].ref)
  IN  [f |-> f, m |-> VCross(arm, f), tf |-> tf, tm |-> RMul(tf, VNorm(arm))]

(************************* C11: sums over an airplane ***********************)
SumF(ev, a) == FoldLeft(LAMBDA acc, p : VAdd(acc, p.f), VZero, Flatten([w \in DOMAIN ev.airplanes[a].wings |-> WingPanels(ev.airplanes[a].wings[w])]))
SumM(ev, a) == FoldLeft(LAMBDA acc, p : VAdd(acc, p.m), VZero, Flatten([w \in DOMAIN ev.airplanes[a].wings |-> WingPanels(ev.airplanes[a].wings[w])]))
MagF(ev, a) == FoldLeft(LAMBDA acc, p : RAdd(acc, VNorm(p.f)), 0, Flatten([w \in DOMAIN ev.airplanes[a].wings |-> WingPanels(ev.airplanes[a].wings[w])]))
MagM(ev, a) == FoldLeft(LAMBDA acc, p : RAdd(acc, VNorm(p.m)), 0, Flatten([w \in DOMAIN ev.airplanes[a].wings |-> WingPanels(ev.airplanes[a].wings[w])]))

(*************************** C12: wakes of wings ***************************)
SumInts(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
\* the wings of a step in order, with the part of the flat wake that belongs to each
WakeOfWing(ev, k, n) ==          \* n-th wing of WingsOf(ev) at step k
  LET ws == WingsOf(ev)
      before == k * SumInts([q \in 1 .. n - 1 |-> Cols(ws[q])])
  IN  RowsOf(SubSeq(ev.wake, before + 1, before + k * Cols(ws[n])), Cols(ws[n]))
\* neighbouring rings share their corners: where the trailing edge has a step, midway
TrailEdge(w) == LET te == w.panels[Rows(w)] IN
  TLCEval([j \in 1 .. Cols(w) + 1 |-> IF j = 1 THEN te[1].vbl ELSE IF j > Cols(w) THEN te[Cols(w)].vbr
                                      ELSE VMid(te[j - 1].vbr, te[j].vbl)])
TrailL(w) == [j \in 1 .. Cols(w) |-> TrailEdge(w)[j]]
TrailR(w) == [j \in 1 .. Cols(w) |-> TrailEdge(w)[j + 1]]
TrailG(w) == [j \in 1 .. Cols(w) |-> w.panels[Rows(w)][j].g]

(************************ C13: windows and their averages ******************)
\* means and root mean squares over a window of vectors
MeanVec(ws) == VScale(RDiv(1, Len(ws)), FoldLeft(LAMBDA acc, v : VAdd(acc, v), VZero, ws))
RmsVec(ws) == [c \in 1 .. 3 |-> RSqrt(RDiv(FoldLeft(LAMBDA acc, v : RAdd(acc, RSq(v[c])), 0, ws), Len(ws)))]

(**************************** C19: streamlines *****************************)
TEPanels(s) == TLCEval(Flatten([n \in DOMAIN WingsOf(s) |-> WingsOf(s)[n].panels[Rows(WingsOf(s)[n])]]))
StreamSeed(p) == VMid(p.bl, p.br)
StreamDt == RRat(2, 100)
StreamSteps == 25
AlongFor(flow, q, dt) == VScale(dt, Velocity(flow, q))
Along(flow, q) == AlongFor(flow, q, StreamDt)
RECURSIVE StreamLine(_, _, _)
StreamLine(flow, line, n) ==
  IF n = 0 THEN line
  ELSE StreamLine(flow, TLCEval(Append(line, VAdd(line[Len(line)], Along(flow, line[Len(line)])))), n - 1)
=============================================================================
