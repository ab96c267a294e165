------------------------------- MODULE T_Airfoil -------------------------------
(* C02: recorded airfoils against Airfoils.                                      *)
EXTENDS Airfoils, TraceBase
VARIABLE l

T9 == RPow(10, -9)
CurveClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : P2Close(a[i], b[i], tol)
CurveFinite(a) == \A i \in DOMAIN a : RFinite(a[i][1]) /\ RFinite(a[i][2])

\* the outline `raw` resampled at n cosine-spaced chord stations per side
Between(y, a, b) == RLe(RSub(RMin(a, b), T9), y) /\ RLe(y, RAdd(RMax(a, b), T9))
\* y at station x lies on the curve side (increasing x): between its neighbours, equal to it at a point of it
OnSide(side, x, y) ==
  LET xs == Xs(side)
      k == CountLe(xs, x)
  IN  IF k = 0 \/ RLt(xs[Len(xs)], x) THEN TRUE        \* outside the tabulated range
      ELSE IF k = Len(xs) THEN RClose(y, side[k][2], T9)
      ELSE Between(y, side[k][2], side[k + 1][2])
Resampled(coords, raw, n) ==
  LET xs == TLCEval(RCosSpace(0, 1, n))
      up == TLCEval(UpperLE(raw))
      lo == TLCEval(LowerLE(raw))
  IN  << <<"resample-size", Len(coords) = 2 * n - 1>>,
         <<"resample-stations", Len(coords) = 2 * n - 1 /\
             \A i \in DOMAIN coords : RClose(coords[i][1], IF i <= n THEN xs[n + 1 - i] ELSE xs[i - n + 1], T9)>>,
         <<"resample-upper", Len(coords) = 2 * n - 1 /\ \A i \in 1 .. n : OnSide(up, xs[n + 1 - i], coords[i][2])>>,
         <<"resample-lower", Len(coords) = 2 * n - 1 /\ \A i \in n + 1 .. 2 * n - 1 : OnSide(lo, xs[i - n + 1], coords[i][2])>> >>

Increasing(s) == \A i \in 1 .. Len(s) - 1 : RLt(s[i], s[i + 1])
\* attributes derived from the outline
DerivedClauses(a) ==
  << <<"camber-line", CurveClose(a.mcl, Mcl(a.coords), T9)>>,
     <<"half-thickness", CurveClose(a.umm, LET u == UpperLE(a.coords) m == Mcl(a.coords) IN
          [i \in DOMAIN u |-> P2Sub(u[i], m[i])], T9)>>,
     <<"thickness", Len(a.thick) = Len(a.mcl) /\ \A i \in DOMAIN a.thick :
          /\ RClose(a.thick[i][1], a.mcl[i][1], T9)
          /\ RClose(a.thick[i][2], RMul(2, RSqrt(RAdd(RSq(a.umm[i][1]), RSq(a.umm[i][2])))), T9)>>,
     <<"sides", CurveClose(a.upper, [i \in 1 .. LeadingEdge(a.coords) |-> a.coords[i]], T9)
                /\ CurveClose(a.lower, LowerLE(a.coords), T9)>> >>
     \o When(Has(a, "sampled"),
        << <<"camber-sample", CurveClose(a.sampled, Sample(a.mcl, a.fractions), T9)>>,
           <<"camber-at-chord", Increasing(Xs(a.mcl)) => \A i \in DOMAIN a.stations :
               RClose(a.cambers[i], InterpExtend(Xs(a.mcl), Ys(a.mcl), a.stations[i]), T9)>> >>)

NacaClauses(ev) ==
  LET q == NacaParams(ev.d1, ev.d2, ev.tt)
      n == (Len(ev.raw) + 1) \div 2
      raw == NacaOutline(q, n)
  IN  << <<"naca-outline", CurveClose(ev.raw, raw, T9)>> >>
      \o Resampled(ev.a.coords, raw, ev.n) \o DerivedClauses(ev.a)

TableClauses(ev) ==
  << <<"library-outline", CurveClose(ev.raw, ev.table, T9)>> >> \o
  When(Len(ev.raw) > 2, Resampled(ev.a.coords, ev.table, ev.n) \o DerivedClauses(ev.a))

GivenClauses(ev) ==
  (IF ev.repanel THEN Resampled(ev.a.coords, ev.table, ev.n)
   ELSE << <<"given-outline", CurveClose(ev.a.coords, ev.table, T9)>> >>) \o DerivedClauses(ev.a)

\* vertices at the hinge station itself may go either way
NearHinge(p, h) == RClose(p[1], h, T9)
FlapClauses(ev) ==
  LET o == ev.before
      n == Len(o.mcl)
      mcl == FlapMcl(o.mcl, ev.hinge, ev.defl)
      umm == FlapThickness(o.mcl, o.umm, ev.hinge, ev.defl)
      want == TLCEval(Outline(mcl, umm))
      node(i) == IF i <= n THEN o.mcl[n + 1 - i] ELSE o.mcl[i - n + 1]
      free(i) == NearHinge(node(i), ev.hinge)
      hp == HingePoint(o.mcl, ev.hinge)
      got == ev.after.coords
  IN  IF Len(got) # Len(want) THEN << <<"flap-size", FALSE>> >>
      ELSE << <<"flap-size", TRUE>>,
              <<"flap-ahead-unchanged", \A i \in DOMAIN got :
                  (RLt(node(i)[1], ev.hinge) /\ ~free(i)) => P2Close(got[i], o.coords[i], T9)>>,
              <<"flap-behind-rotated", \A i \in DOMAIN got :
                  (RLt(ev.hinge, node(i)[1]) /\ ~free(i)) =>
                      P2Close(got[i], P2Add(hp, Rot2(P2Sub(o.coords[i], hp), RNeg(ev.defl))), T9)>>,
              <<"flap-outline", \A i \in DOMAIN got : free(i) \/ P2Close(got[i], want[i], T9)>>,
              <<"flap-camber", Len(ev.after.mcl) = n /\ \A i \in 1 .. n :
                  NearHinge(o.mcl[i], ev.hinge) \/ P2Close(ev.after.mcl[i], mcl[i], T9)>>,
              <<"flap-original-untouched", ev.untouched>>,
              <<"flap-down", (RLt(1, ev.defl) /\ RLt(ev.defl, 90) /\ RLt(ev.hinge, RRat(95, 100))) =>
                  RLt(ev.after.mcl[n][2], o.mcl[n][2])>> >>

RejectClauses(ev) == << <<"rejects-" \o ev.what, ev.raised>> >>
AcceptClauses(ev) == << <<"accepts-" \o ev.what, ev.accepted>> >>

Clauses(ev) ==
  CASE ev.e = "Naca"      -> NacaClauses(ev)
    [] ev.e = "Table"     -> TableClauses(ev)
    [] ev.e = "Given"     -> GivenClauses(ev)
    [] ev.e = "Flap"      -> FlapClauses(ev) \o DerivedClauses(ev.after)
    [] ev.e = "Reject"    -> RejectClauses(ev)
    [] ev.e = "Accept"    -> AcceptClauses(ev)
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses

TInit == l = 1 /\ TraceStart
TNext == l <= Len(Trace) /\ Verdict(l, Trace[l], Clauses(Trace[l])) /\ l' = l + 1
=============================================================================
