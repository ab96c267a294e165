------------------------------- MODULE T_Output -------------------------------
(***************************************************************************)
(* Recorded uses of the output functions against Output (C17): a Solved     *)
(* event holds the solution; drawings follow call by call on the stage.     *)
(***************************************************************************)
EXTENDS Output, TraceBase
VARIABLES l, at, beg, stage, seen

Sol == Trace[at]
O == Trace[beg]
N == Len(Sol.steps)
P6 == RPow(10, -6)
P9 == RPow(10, -9)
P12 == RPow(10, -12)
PageNow == Len(stage.pages)
K == StepOfPage(O, N, PageNow)                   \* the step being shown
StepShown == Sol.steps[Min2(K, N - 1) + 1]
NumSegments == IF Has(Sol, "lines") THEN FoldLeft(LAMBDA a, ln : a + Len(ln) - 1, 0, Sol.lines) ELSE 0
WantNow == LET k == Min2(K, N - 1) IN Wanted(O, Sol.unsteady, k, HasResults(Sol.steps[k + 1]), NumSegments)
\* the scalars that the colours of a drawing range over
ShownScalars == TLCEval(Concat([k \in 1 .. N |->
   IF HasResults(Sol.steps[k]) /\ (O.op = "animate" \/ k = N) THEN ScalarsOf(Sol.steps[k].airplanes, O.scalar) ELSE <<>>]))
AllClose(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RFinite(a[i]) /\ RNear(a[i], b[i], P9, P12)

Segments == {x \in (DOMAIN Sol.lines) \X (1 .. 1000) : x[2] < Len(Sol.lines[x[1]])}
Matching(ev) == {x \in Segments \ seen : LET a == Sol.lines[x[1]][x[2]] b == Sol.lines[x[1]][x[2] + 1] IN
                   \/ VNear(ev.from, a, P6, P6) /\ VNear(ev.to, b, P6, P6)
                   \/ VNear(ev.from, b, P6, P6) /\ VNear(ev.to, a, P6, P6)}
TagOf(ev) ==
  CASE ev.e = "Line" -> IF Matching(ev) # {} THEN "line" ELSE "odd"
    [] ev.e = "Text" -> IF ev.k = "Max" THEN "max" ELSE IF ev.k = "Min" THEN "min" ELSE IF ev.k = "Speed" THEN "speed" ELSE "odd"
    [] OTHER -> IF ShowsQuads(ev, PanelsOf(StepShown.airplanes), P9) THEN (IF Has(ev, "scalars") THEN "coloured" ELSE "plain")
                ELSE IF ~Has(ev, "scalars") /\ ShowsQuads(ev, StepShown.wake, P9) THEN "wake" ELSE "odd"
MeshClauses(ev) ==
  << <<"shows-that-step", TagOf(ev) # "odd">> >> \o
  When(Has(ev, "scalars") /\ Which(O.scalar) = 0, << <<"colours-asked-for", FALSE>> >>) \o
  When(Has(ev, "scalars") /\ Which(O.scalar) # 0 /\ ~HasResults(StepShown), << <<"colours-need-results", FALSE>> >>) \o
  When(Has(ev, "scalars") /\ Which(O.scalar) # 0 /\ HasResults(StepShown),
       << <<"colours-are-coefficients", AllClose(ev.scalars, ScalarsOf(StepShown.airplanes, O.scalar))>>,
          <<"colour-limits", Has(ev, "clim") /\ AllClose(ev.clim, ColourLimits(ShownScalars))>> >>)
TextClauses(ev) ==
  LET r == RAdd(RRat(1, 200), P9) IN
  CASE ev.k = "Max" -> << <<"text-extremes", Which(O.scalar) # 0 /\ RClose(ev.x, Most(ShownScalars), r)>> >>
    [] ev.k = "Min" -> << <<"text-extremes", Which(O.scalar) # 0 /\ RClose(ev.x, Least(ShownScalars), r)>> >>
    [] ev.k = "Speed" -> << <<"text-speed", RClose(ev.x, SpeedPercent(Sol.dt), RAdd(Half, P9))>> >>
    [] OTHER -> << <<"known-text", FALSE>> >>
PageClause == << <<"page-shows-everything", K < N /\ PageShows(stage.canvas, WantNow)>> >>
Saved(ev) ==
  IF O.op = "draw" THEN << <<"picture-saved", Len(ev.shots) = 1>>, <<"saved-as", ev.file = "Draw.webp">> >>
  ELSE << <<"picture-saved", Len(ev.shots) = N /\ \A i \in DOMAIN ev.shots : ev.shots[i] \in DOMAIN stage.shots /\ stage.shots[ev.shots[i]].page = i - 1>>,
          <<"frame-rate", Has(ev, "fps") /\ RClose(ev.fps, FramesPerSecond(Sol.dt), 0)>>,
          <<"saved-as", ev.file = "Animate.webp">> >>
ShotClauses == When(O.save, << <<"picture-shows-everything", K < N /\ PageShows(stage.canvas, WantNow)>> >>)
EndClauses(ev) ==
  << <<"every-step-shown", Len(stage.pages) = NumPages(O, N)>>, <<"closed", ~stage.open>>,
     <<"saves-if-asked", ev.saves = IF O.save THEN 1 ELSE 0>>, <<"shown", ev.shows >= 1>> >>
ReportClauses(ev) ==
  LET want == TLCEval(IF Sol.unsteady THEN UnsteadyReport(Sol) ELSE SteadyReport(Sol.steps[1])) IN
  << <<"report-rows", Len(ev.rows) = Len(want)>>,
     <<"report-values", \A i \in 1 .. Min2(Len(ev.rows), Len(want)) : RowShows(ev.rows[i], want[i])>> >>
PlotClauses(ev) ==
  LET na == Len(Sol.steps[1].airplanes)
      title(a, g) == Sol.steps[1].airplanes[a].name \o " " \o g.what \o " vs. Time"
      file(a, g) == Sol.steps[1].airplanes[a].name \o " " \o g.what \o ".png"
  IN  << <<"plot-count", Len(ev.figs) = 4 * na>>,
         <<"plot-values", \A a \in 1 .. na : \A g \in DOMAIN Graphs : \E i \in DOMAIN ev.figs : GraphShows(ev.figs[i], Sol, a, Graphs[g])>>,
         <<"plot-saved", IF ~ev.save THEN Len(ev.saved) = 0
                         ELSE /\ Len(ev.saved) = 4 * na
                              /\ \A a \in 1 .. na : \A g \in DOMAIN Graphs : \E i \in DOMAIN ev.saved :
                                    ev.saved[i].file = file(a, Graphs[g]) /\ ev.saved[i].title = title(a, Graphs[g])>>,
         <<"plot-shown", IF ev.show THEN Len(ev.shown) = 4 * na ELSE Len(ev.shown) = 0 /\ ev.open = 0>> >>
SurfaceClauses(ev) ==
  LET st == Sol.steps[ev.k + 1] IN
  CASE ev.of = "panels"  -> << <<"surface-panels", ShowsQuads(ev, PanelsOf(st.airplanes), P12)>> >>
    [] ev.of = "wake"    -> << <<"surface-wake", ShowsQuads(ev, st.wake, P12)>> >>
    [] ev.of = "scalars" -> << <<"surface-scalars", AllClose(ev.values, ScalarsOf(st.airplanes, ev.scalar))>> >>
Clauses(ev) ==
  CASE ev.e = "Solved" -> << <<"solved", TRUE>> >>
    [] ev.e = "Begin"  -> << <<"begin", TRUE>> >>
    [] ev.e \in {"Mesh", "Line"} -> MeshClauses(ev)
    [] ev.e = "Text"   -> TextClauses(ev)
    [] ev.e = "Show"   -> << <<"shown-complete", PageShows(stage.canvas, WantNow)>> >>
    [] ev.e \in {"Clear", "Close"} -> PageClause
    [] ev.e = "Shot"   -> ShotClauses
    [] ev.e = "Save"   -> Saved(ev)
    [] ev.e = "End"    -> EndClauses(ev)
    [] ev.e = "Report" -> ReportClauses(ev)
    [] ev.e = "Plots"  -> PlotClauses(ev)
    [] ev.e = "Surface" -> SurfaceClauses(ev)
    [] ev.e = "Left"   -> << <<"showing-changes-nothing", ev.before = ev.after>> >>
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER -> UnknownClauses
After(ev) ==
  CASE ev.e = "Begin" -> Stage0
    [] ev.e \in {"Mesh", "Line", "Text"} -> Put(stage, TagOf(ev))
    [] ev.e = "Clear" -> Leave(stage)
    [] ev.e = "Close" -> IF stage.open THEN Close(stage) ELSE stage
    [] ev.e = "Shot"  -> Shoot(stage)
    [] OTHER -> stage
TInit == l = 1 /\ at = 0 /\ beg = 0 /\ stage = Stage0 /\ seen = {} /\ TraceStart
TNext == /\ l <= Len(Trace)
         /\ Verdict(l, Trace[l], Clauses(Trace[l]))
         /\ at' = IF Trace[l].e = "Solved" THEN l ELSE at
         /\ beg' = IF Trace[l].e = "Begin" THEN l ELSE beg
         /\ stage' = TLCEval(After(Trace[l]))
         /\ seen' = IF Trace[l].e = "Line" THEN LET m == Matching(Trace[l]) IN IF m = {} THEN seen ELSE seen \cup {CHOOSE x \in m : TRUE}
                    ELSE IF Trace[l].e = "Begin" THEN {} ELSE seen
         /\ l' = l + 1
=============================================================================
