-------------------------------- MODULE Output --------------------------------
(***************************************************************************)
(* What reports, plots and drawings of a solution must show (C17).          *)
(*                                                                          *)
(* A solution sol:  unsteady, static (TRUE/FALSE), dt, steps: a sequence    *)
(* over the time steps of [airplanes, wake]; an airplane: name, wings (each *)
(* a grid rows x columns of panels [fl fr bl br, c]), and, when the step    *)
(* has results, tf tm cf cm; finals: F M CF CM and means mF mM mCF mCM.     *)
(* Options o of a drawing: op ("draw" or "animate"), scalar, wake, streams, *)
(* save.                                                                    *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

Concat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
\* the panels of an instant in the order of airplanes, wings, rows and columns
PanelsOf(airplanes) == TLCEval(Concat([a \in DOMAIN airplanes |->
                         Concat([w \in DOMAIN airplanes[a].wings |-> Concat(airplanes[a].wings[w])])]))
HasResults(st) == "tf" \in DOMAIN st.airplanes[1]

(******************************** surfaces *********************************)
\* a surface: points, faces (four indices from zero each)
Corner(s, f, i) == s.points[s.faces[f][i] + 1]
SameQuad(s, f, q, tol) ==          \* q = corners in order round the quadrilateral
  /\ Len(s.faces[f]) = 4
  /\ \E r \in 0 .. 3 : \E d \in {1, 3} : \A i \in 1 .. 4 :
        VNear(Corner(s, f, i), q[((r + d * (i - 1)) % 4) + 1], tol, tol)
Perimeter(p) == << p.fl, p.fr, p.br, p.bl >>
ShowsQuads(s, ps, tol) == Len(s.faces) = Len(ps) /\ \A i \in DOMAIN ps : SameQuad(s, i, Perimeter(ps[i]), tol)
Which(scalar) == CASE scalar = "induced drag" -> 1 [] scalar = "side force" -> 2 [] scalar = "lift" -> 3 [] OTHER -> 0
ScalarsOf(airplanes, scalar) == LET p == PanelsOf(airplanes) IN [i \in DOMAIN p |-> p[i].c[Which(scalar)]]

(***************************** the drawing stage ***************************)
\* canvas: what has been put on it; pages: canvases left behind by clearing or closing;
\* shots: the pictures taken: [page, canvas]; every item is a tag
Tags == {"plain", "coloured", "wake", "line", "max", "min", "speed", "odd"}
Stage0 == [canvas |-> <<>>, pages |-> <<>>, shots |-> <<>>, open |-> TRUE]
Put(s, tag) == [s EXCEPT !.canvas = Append(@, tag)]
Leave(s)    == [s EXCEPT !.pages = Append(@, s.canvas), !.canvas = <<>>]
Close(s)    == [Leave(s) EXCEPT !.open = FALSE]
Shoot(s)    == [s EXCEPT !.shots = Append(@, [page |-> Len(s.pages), canvas |-> s.canvas])]
Count(c, tag) == Len(SelectSeq(c, LAMBDA x : x = tag))
\* the page of step k (from zero); lines: number of streamline segments
Wanted(o, unsteady, k, results, lines) ==
  LET colours == IF Which(o.scalar) # 0 /\ results THEN 1 ELSE 0 IN
  [plain    |-> 1 - colours, coloured |-> colours, max |-> colours, min |-> colours,
   speed    |-> IF o.op = "animate" /\ o.save THEN 1 ELSE 0,
   wake     |-> IF o.wake /\ unsteady /\ k > 0 THEN 1 ELSE 0,
   line     |-> IF o.streams THEN lines ELSE 0, odd |-> 0]
PageShows(c, want) == \A t \in Tags : Count(c, t) = want[t]
StepOfPage(o, n, page) == IF o.op = "draw" THEN n - 1 ELSE page
NumPages(o, n) == IF o.op = "draw" THEN 1 ELSE n

(***************************** colours and texts ***************************)
Mean(s) == RDiv(RSum(s), Len(s))
Deviation(s) == LET m == Mean(s) IN RSqrt(RDiv(RSum([i \in DOMAIN s |-> RSq(RSub(s[i], m))]), Len(s)))
Least(s) == FoldLeft(LAMBDA a, x : RMin(a, x), s[1], s)
Most(s)  == FoldLeft(LAMBDA a, x : RMax(a, x), s[1], s)
Sign(x)  == IF RLt(x, 0) THEN -1 ELSE IF RLt(0, x) THEN 1 ELSE 0
ColourLimits(s) ==
  LET d == RMul(3, Deviation(s)) IN
  IF Sign(Least(s)) = Sign(Most(s)) THEN << RMax(RSub(Mean(s), d), Least(s)), RMin(RAdd(Mean(s), d), Most(s)) >>
  ELSE << RNeg(d), d >>
\* animations run at true speed, or slowed to fifty frames a second
FramesPerSecond(dt) == RFloor(RMin(50, RDiv(1, dt)))
SpeedPercent(dt) == RMul(100, RMin(1, RMul(50, dt)))

(********************************* reports *********************************)
Heading(h) == [h |-> h]
Row(k, x, u) == [k |-> k, x |-> x, u |-> u]
Report(name, pre, f, m, cf, cm) ==
  << Heading(name), Heading(pre \o "Forces in Wind Axes"),
     Row("Induced Drag", f[1], "N"), Row("Side Force", f[2], "N"), Row("Lift", f[3], "N"),
     Heading(pre \o "Moments in Wind Axes"),
     Row("Rolling Moment", m[1], "Nm"), Row("Pitching Moment", m[2], "Nm"), Row("Yawing Moment", m[3], "Nm"),
     Heading(pre \o "Force Coefficients in Wind Axes"), Row("CDi", cf[1], ""), Row("CY", cf[2], ""), Row("CL", cf[3], ""),
     Heading(pre \o "Moment Coefficients in Wind Axes"), Row("Cl", cm[1], ""), Row("Cm", cm[2], ""), Row("Cn", cm[3], "") >>
SteadyReport(st) == Concat([a \in DOMAIN st.airplanes |-> LET p == st.airplanes[a] IN
                      Report("Airplane " \o p.name, "", p.tf, p.tm, p.cf, p.cm)])
UnsteadyReport(sol) ==
  Concat([a \in DOMAIN sol.steps[1].airplanes |->
    LET n == sol.steps[1].airplanes[a].name  f == sol.finals IN
    IF sol.static THEN Report(n, "Final ", f.F[a], f.M[a], f.CF[a], f.CM[a])
    ELSE Report(n, "Final ", f.mF[a], f.mM[a], f.mCF[a], f.mCM[a])])
\* printed to three decimals
RowShows(got, want) ==
  IF "h" \in DOMAIN want THEN "h" \in DOMAIN got /\ got.h = want.h
  ELSE /\ "k" \in DOMAIN got /\ got.k = want.k /\ got.u = want.u
       /\ RClose(got.x, want.x, RAdd(RRat(1, 2000), RMul(RPow(10, -9), RAbs(want.x))))

(********************************** plots **********************************)
Forces  == << "Induced Drag", "Side Force", "Lift" >>
Moments == << "Roll", "Pitch", "Yaw" >>
Graphs == << [what |-> "Forces", q |-> "tf", y |-> "Force (N)", names |-> Forces],
             [what |-> "Force Coefficients", q |-> "cf", y |-> "Coefficient", names |-> Forces],
             [what |-> "Moments", q |-> "tm", y |-> "Moment (N m)", names |-> Moments],
             [what |-> "Moment Coefficients", q |-> "cm", y |-> "Coefficient", names |-> Moments] >>
ResultSteps(sol) == SelectSeq([k \in DOMAIN sol.steps |-> k], LAMBDA k : HasResults(sol.steps[k]))
GraphShows(fig, sol, a, g) ==
  LET ks == ResultSteps(sol)
      tol == RPow(10, -9)
  IN  /\ fig.title = sol.steps[1].airplanes[a].name \o " " \o g.what \o " vs. Time"
      /\ fig.x = "Time (s)" /\ fig.y = g.y
      /\ Len(fig.lines) = 3
      /\ \A i \in 1 .. 3 : \E j \in 1 .. 3 :
           LET ln == fig.lines[j] IN
           /\ ln.name = g.names[i]
           /\ Len(ln.t) = Len(ks) /\ Len(ln.v) = Len(ks)
           /\ \A n \in DOMAIN ks : /\ RNear(ln.t[n], RMul(ks[n] - 1, sol.dt), tol, tol)
                                   /\ RNear(ln.v[n], sol.steps[ks[n]].airplanes[a][g.q][i], tol, RPow(10, -12))
=============================================================================
