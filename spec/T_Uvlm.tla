-------------------------------- MODULE T_Uvlm --------------------------------
(***************************************************************************)
(* Recorded solutions of the three solvers against Flow and Wake.           *)
(* Unsteady runs are recorded as Run, Step 0 .. n-1, Final; a Step is       *)
(* judged together with the Step before it.  Properties C09 - C13, C19.     *)
(***************************************************************************)
EXTENDS Uvlm, TraceBase
VARIABLES l, run

R == Trace[run]                        \* the Run event of the current run
StepAt(k) == Trace[run + 1 + k]
Shape(ev) == /\ \A x \in AllIds(ev) : Has(PanelAt(ev, x), "g")
             /\ \A a \in DOMAIN ev.airplanes : \A w \in DOMAIN ev.airplanes[a].wings :
                   \A i \in DOMAIN ev.airplanes[a].wings[w].panels :
                      Len(ev.airplanes[a].wings[w].panels[i]) = Cols(ev.airplanes[a].wings[w])
SameShape(a, b) == AllIds(a) = AllIds(b)

(**************************** C09: tangency ********************************)
\* reference speed for tolerances
Vref(ev, flap) == RAdd(ev.op.v, flap)
LegStrengths(p) == /\ \A k \in DOMAIN p.gl : RFinite(p.gl[k]) /\ REq(p.gl[k], p.g)
                   /\ Has(p, "h") => \A k \in DOMAIN p.h.gl : RFinite(p.h.gl[k]) /\ REq(p.h.gl[k], p.h.g)
FiniteVortex(p) == RFinite(p.g) /\ VFinite(p.vfl) /\ VFinite(p.vfr) /\ VFinite(p.vbl) /\ VFinite(p.vbr)

TangencyUnsteady(ev, flow) ==
  \A x \in AllIds(ev) :
    LET p == PanelAt(ev, x) IN
    Tangent(flow, p, IF ev.k = 0 THEN VZero ELSE Apparent(Colloc(p), Colloc(PanelAt(StepAt(ev.k - 1), x)), R.dt))
PlacementUnsteady(ev) ==
  \A x \in AllIds(ev) : PlaceClose(PanelAt(ev, x),
      VortexPlace(WingAt(ev, x), x[3], x[4], VScale(RMul(RRat(1, 4), R.dt), Freestream(ev.op))), T9, T12)

(*************************** C10: panel loads ******************************)
LoadsClauses(ev, Loads(_)) ==
  LET ids == TLCEval(AllIds(ev))
      ld == TLCEval([x \in ids |-> Loads(x)])
  IN  << <<"panel-force", \A x \in ids : VFinite(PanelAt(ev, x).f) /\ VClose(PanelAt(ev, x).f, ld[x].f, ld[x].tf)>>,
         <<"panel-moment", \A x \in ids : VFinite(PanelAt(ev, x).m) /\
                VClose(PanelAt(ev, x).m, ld[x].m, RAdd(ld[x].tm, RPow(10, -12)))>> >>
UnsteadyLoads(ev, flow, x) ==
  LET p == PanelAt(ev, x) IN
  IF ev.k = 0 THEN RingLoads(ev, flow, x, LAMBDA leg : VZero, p.g, R.dt)
  ELSE LET q == PanelAt(StepAt(ev.k - 1), x)
           mv(leg) == CASE leg = 1 -> Apparent(RightMid(p), RightMid(q), R.dt)
                        [] leg = 2 -> Apparent(FrontMid(p), FrontMid(q), R.dt)
                        [] leg = 3 -> Apparent(LeftMid(p), LeftMid(q), R.dt)
       IN  RingLoads(ev, flow, x, mv, RSub(p.g, q.g), R.dt)

(************************ C11: totals, coefficients ************************)
TotalsClauses(ev) ==
  LET As == DOMAIN ev.airplanes
      A(a) == ev.airplanes[a]
      N(g, h) == VNear(g, h, T9, T12)
  IN  << <<"panel-force-wind", \A x \in AllIds(ev) : N(PanelAt(ev, x).fw, ToWind(ev.op, PanelAt(ev, x).f))>>,
         <<"panel-moment-wind", \A x \in AllIds(ev) : N(PanelAt(ev, x).mw, ToWind(ev.op, PanelAt(ev, x).m))>>,
         <<"panel-coefficients", \A x \in AllIds(ev) : LET p == PanelAt(ev, x) IN
              N(p.c, Coefficients(ev.op, Area(p), ToWind(ev.op, p.f)))>>,
         <<"total-present", \A a \in As : Has(A(a), "tf")>>,
         <<"total-force", \A a \in As : Has(A(a), "tf") =>
              VClose(A(a).tf, ToWind(ev.op, SumF(ev, a)), RAdd(T12, RMul(T9, MagF(ev, a))))>>,
         <<"total-moment", \A a \in As : Has(A(a), "tm") =>
              VClose(A(a).tm, ToWind(ev.op, SumM(ev, a)), RAdd(T12, RMul(T9, MagM(ev, a))))>>,
         <<"force-coefficients", \A a \in As : Has(A(a), "cf") => N(A(a).cf, Coefficients(ev.op, A(a).s, A(a).tf))>>,
         <<"moment-coefficients", \A a \in As : Has(A(a), "cm") => N(A(a).cm, MomentCoefficients(ev.op, A(a), A(a).tm))>> >>

(****************************** C12: wake **********************************)
RingsAll(rows, T(_, _)) == \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] : T(i, j)
WakeClauses(ev) ==
  LET ws == WingsOf(ev)
      spans == SumSeq([q \in DOMAIN ws |-> Cols(ws[q])])
  IN  IF Len(ev.wake) # ev.k * spans THEN << <<"wake-rows", FALSE>> >>
      ELSE << <<"wake-rows", TRUE>>, <<"wake-count", ev.nwake = ev.k * spans>> >> \o
      When(ev.k > 0,
        LET old == StepAt(ev.k - 1)
            ows == WingsOf(old)
            flow == TLCEval(FlowOf(old, "unsteady"))
            Drift(p) == IF R.prescribed THEN VScale(R.dt, Freestream(old.op)) ELSE VScale(R.dt, Velocity(flow, p))
            tolp(p) == RAdd(RMul(T9, VNorm(p)), RMul(T7, RMul(R.dt, old.op.v)))
            want == TLCEval([n \in DOMAIN ws |->
                      StepWake(WakeOfWing(old, ev.k - 1, n), TrailL(ws[n]), TrailR(ws[n]), TrailG(ows[n]), R.dt, Drift)])
            got == TLCEval([n \in DOMAIN ws |-> WakeOfWing(ev, ev.k, n)])
            All(T(_, _)) == \A n \in DOMAIN ws : RingsAll(got[n], LAMBDA i, j : T(got[n][i][j], want[n][i][j]))
            C(a, b) == VFinite(a) /\ VClose(a, b, tolp(b))
        IN  << <<"wake-strengths", All(LAMBDA g, w : RNear(g.g, w.g, T12, 0))>>,
               <<"wake-ages", All(LAMBDA g, w : RNear(g.age, w.age, T9, T12))>>,
               <<"wake-shed-at-trailing-edge", \A n \in DOMAIN ws : \A j \in DOMAIN got[n][1] :
                     C(got[n][1][j].fl, want[n][1][j].fl) /\ C(got[n][1][j].fr, want[n][1][j].fr)>>,
               <<"wake-convected", All(LAMBDA g, w : C(g.fl, w.fl) /\ C(g.fr, w.fr) /\ C(g.bl, w.bl) /\ C(g.br, w.br))>>,
               <<"wake-corners-shared", \A n \in DOMAIN ws : RingsAll(got[n], LAMBDA i, j :
                     /\ j < Len(got[n][i]) => /\ VNear(got[n][i][j].fr, got[n][i][j + 1].fl, T12, T12)
                                              /\ VNear(got[n][i][j].br, got[n][i][j + 1].bl, T12, T12)
                     /\ i < Len(got[n]) => /\ VNear(got[n][i][j].bl, got[n][i + 1][j].fl, T12, T12)
                                           /\ VNear(got[n][i][j].br, got[n][i + 1][j].fr, T12, T12))>> >>)

(************************* C13: which results exist ************************)
MaxPeriod == FoldLeft(LAMBDA a, x : RMax(a, x), 0, R.periods)
Static == REq(MaxPeriod, 0)
\* first step of the last full cycle; a step of slack where the quotient is integral up to rounding
FirstAveraging ==
  IF Static THEN {R.steps - 1}
  ELSE LET q == RSub(R.steps, RDiv(MaxPeriod, R.dt))
       IN  {Max2(0, RFloor(RSub(q, T9))), Max2(0, RFloor(RAdd(q, T9)))}
HasResults(ev) == \A x \in AllIds(ev) : Has(PanelAt(ev, x), "f")
HasNone(ev) == (\A x \in AllIds(ev) : ~Has(PanelAt(ev, x), "f")) /\ \A a \in DOMAIN ev.airplanes : ~Has(ev.airplanes[a], "tf")
ResultsFrom == IF R.only_final THEN FirstAveraging ELSE {0}
GateClauses(ev) == << <<"results-gated", \E f \in ResultsFrom : IF ev.k >= f THEN HasResults(ev) ELSE HasNone(ev)>> >>

Vec(ev, a, q) == CASE q = "F" -> ev.airplanes[a].tf [] q = "CF" -> ev.airplanes[a].cf
                   [] q = "M" -> ev.airplanes[a].tm [] q = "CM" -> ev.airplanes[a].cm
Qs == {"F", "CF", "M", "CM"}
Window(f) == [i \in 1 .. R.steps - f |-> StepAt(f + i - 1)]
MeanOf(f, a, q) == MeanVec([i \in DOMAIN Window(f) |-> Vec(Window(f)[i], a, q)])
RmsOf(f, a, q)  == RmsVec([i \in DOMAIN Window(f) |-> Vec(Window(f)[i], a, q)])
FinalClauses(ev) ==
  LET na == Len(StepAt(0).airplanes)
      fs == ev.finals
      empty(S) == \A q \in S : fs[q] = <<>>
      complete(f) == \A k \in f .. R.steps - 1 : Has(StepAt(k).airplanes[1], "tf")
      good(f) == complete(f) /\
         IF Static THEN \A q \in Qs : Len(fs[q]) = na /\ \A a \in 1 .. na : VNear(fs[q][a], Vec(StepAt(R.steps - 1), a, q), T9, T12)
         ELSE \A q \in Qs : /\ Len(fs["m" \o q]) = na /\ Len(fs["r" \o q]) = na
                            /\ \A a \in 1 .. na : /\ VNear(fs["m" \o q][a], MeanOf(f, a, q), T9, RMul(T12, RAdd(1, VNorm(RmsOf(f, a, q)))))
                                                  /\ VNear(fs["r" \o q][a], RmsOf(f, a, q), T9, T12)
  IN  << <<"final-values", \E f \in FirstAveraging : good(f)>>,
         <<"final-others-empty", IF Static THEN empty({"mF", "mCF", "mM", "mCM", "rF", "rCF", "rM", "rCM"}) ELSE empty(Qs)>>,
         <<"history-length", ev.histories = R.steps>> >>
\* two runs of the same case that differ in what they were asked to report
OptionClauses(ev) ==
  LET eq(p) == Len(p[1]) = Len(p[2]) /\ \A i \in DOMAIN p[1] : RFinite(p[2][i]) /\ RNear(p[1][i], p[2][i], T9, T12) IN
  << <<"options-same-strengths", eq(ev.strengths)>>, <<"options-same-wake", eq(ev.wake)>>,
     <<"options-same-finals", eq(ev.finals)>> >>

(**************************** C19: streamlines *****************************)
StreamClauses(lines, s, method, steps, dt) ==
  LET te == TEPanels(s)
      flow == TLCEval(FlowOf(s, method))
  IN  IF Len(lines) # Len(te) THEN << <<"stream-count", FALSE>> >>
      ELSE << <<"stream-count", TRUE>>,
              <<"stream-seeds", \A k \in DOMAIN te : VNear(lines[k][1], StreamSeed(te[k]), T9, T12)>>,
              <<"stream-length", \A k \in DOMAIN te : Len(lines[k]) = steps + 1>>,
              <<"stream-follows-flow", \A k \in DOMAIN te : \A n \in 1 .. Len(lines[k]) - 1 :
                  LET d == AlongFor(flow, lines[k][n], dt) IN
                  VFinite(lines[k][n + 1]) /\
                  VClose(lines[k][n + 1], VAdd(lines[k][n], d),
                         RAdd(RMul(T9, VNorm(lines[k][n])), RMul(T7, VNorm(d))))>> >>

(******************************** steady ***********************************)
SteadyClauses(ev) ==
  LET flow == TLCEval(FlowOf(ev, ev.method))
      hs == ev.method = "horseshoe"
      place == \A x \in AllIds(ev) :
         LET w == WingAt(ev, x) p == PanelAt(ev, x) IN
         IF hs THEN /\ PlaceClose(p, HorseshoePlace(w, x[3], x[4], ev.op), T9, T12)
                    /\ VNear(p.b1, p.vfr, T12, T12) /\ VNear(p.b2, p.vfl, T12, T12)
         ELSE /\ PlaceClose(p, VortexPlace(w, x[3], x[4], VZero), T9, T12)
              /\ Has(p, "h") = (x[3] = Rows(w))
              /\ Has(p, "h") => LET q == TrailerPlace(p, w, ev.op) IN
                    /\ VNear(p.h.fl, q.fl, T9, T12) /\ VNear(p.h.fr, q.fr, T9, T12)
                    /\ VNear(p.h.bl, q.bl, T9, T12) /\ VNear(p.h.br, q.br, T9, T12)
                    /\ VNear(p.h.b1, q.fr, T9, T12) /\ VNear(p.h.b2, q.fl, T9, T12)
                    /\ RNear(p.h.g, p.g, T12, 0)
  IN  When(On("C09"),
        << <<"vortex-finite", \A x \in AllIds(ev) : FiniteVortex(PanelAt(ev, x))>>,
           <<"leg-strengths", \A x \in AllIds(ev) : LegStrengths(PanelAt(ev, x))>>, <<"vortex-placement", place>>,
           <<"flow-tangency", \A x \in AllIds(ev) : Tangent(flow, PanelAt(ev, x), VZero)>> >>)
      \o When(On("C10"), IF hs THEN LoadsClauses(ev, LAMBDA x : HorseshoeLoads(ev, flow, x))
                         ELSE LoadsClauses(ev, LAMBDA x : RingLoads(ev, flow, x, LAMBDA leg : VZero, 0, 0)))
      \o When(On("C11"), TotalsClauses(ev))
      \o When(On("C13"), << <<"steady-results-present", HasResults(ev)>> >>)
      \o When(On("C19"), IF Has(ev, "lines") THEN StreamClauses(ev.lines, ev, ev.method, StreamSteps, StreamDt) ELSE << <<"stream-count", FALSE>> >>)
      \o When(On("C19") /\ Has(ev, "again"), StreamClauses(ev.again.lines, ev, ev.method, ev.again.n, ev.again.dt))

(******************************* unsteady **********************************)
StepClauses(ev) ==
  LET flow == TLCEval(FlowOf(ev, "unsteady"))
      consistent == ev.k = l - run - 1 /\ (ev.k > 0 => SameShape(ev, StepAt(ev.k - 1)))
      res == HasResults(ev)
  IN  << <<"step-order", consistent>> >> \o
      When(On("C09"), << <<"vortex-finite", \A x \in AllIds(ev) : FiniteVortex(PanelAt(ev, x))>>,
                         <<"leg-strengths", \A x \in AllIds(ev) : LegStrengths(PanelAt(ev, x))>>,
                         <<"vortex-placement", PlacementUnsteady(ev)>>,
                         <<"flow-tangency", TangencyUnsteady(ev, flow)>> >>)
      \o When(On("C10") /\ res, LoadsClauses(ev, LAMBDA x : UnsteadyLoads(ev, flow, x)))
      \o When(On("C11") /\ res, TotalsClauses(ev))
      \o When(On("C12"), WakeClauses(ev))
      \o When(On("C13"), GateClauses(ev))

Clauses(ev) ==
  CASE ev.e = "Run"       -> << <<"run", ev.steps >= 1 /\ RLt(0, ev.dt)>> >>
    [] ev.e = "Step"      -> IF Shape(ev) THEN StepClauses(ev) ELSE << <<"solved-everywhere", FALSE>> >>
    [] ev.e = "Final"     -> When(On("C13"), FinalClauses(ev))
                             \o When(On("C12"), << <<"wake-history-complete", ev.histories = R.steps>> >>)
                             \o When(On("C19"), << <<"stream-present", Has(ev, "lines") = R.streams>> >>
                                  \o When(R.streams /\ Has(ev, "lines"), StreamClauses(ev.lines, StepAt(R.steps - 1), "unsteady", StreamSteps, StreamDt))
                                  \o When(R.streams /\ Has(ev, "again"),
                                          StreamClauses(ev.again.lines, StepAt(R.steps - 1), "unsteady", ev.again.n, ev.again.dt)))
    [] ev.e = "Steady"    -> IF Shape(ev) THEN SteadyClauses(ev) ELSE << <<"solved-everywhere", FALSE>> >>
    [] ev.e = "Options"   -> When(On("C13"), OptionClauses(ev))
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses

TInit == l = 1 /\ run = 0 /\ TraceStart
TNext == /\ l <= Len(Trace)
         /\ Verdict(l, Trace[l], Clauses(Trace[l]))
         /\ run' = IF Trace[l].e = "Run" THEN l ELSE run
         /\ l' = l + 1
=============================================================================
