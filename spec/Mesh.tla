--------------------------------- MODULE Mesh ---------------------------------
(***************************************************************************)
(* Meshing of a wing (property C01) and the reference dimensions of wings   *)
(* and airplanes (C03).                                                     *)
(*                                                                          *)
(* A wing w is a record: le, n (symmetry plane normal), c (chordwise unit   *)
(* vector), sym, nc (chordwise panels), cs ("cosine" or "uniform"), secs.   *)
(* A section: le, chord, n, twist, cst ("symmetric" or "asymmetric"),       *)
(* hinge, defl, ns (spanwise panels to the next section), ss, mcl (camber   *)
(* line of its airfoil).                                                    *)
(***************************************************************************)
EXTENDS Airfoils, Panels

Fractions(kind, n) == TLCEval(IF kind = "uniform" THEN RLin(0, 1, n + 1) ELSE RCosSpace(0, 1, n + 1))

\* rotation of v by deg about the unit axis k (Rodrigues)
Rodrigues(v, k, deg) ==
  LET a == DegToRad(deg) IN
  VAdd(VAdd(VScale(RCos(a), v), VScale(RSin(a), VCross(k, v))),
       VScale(RMul(VDot(k, v), RSub(1, RCos(a))), k))

SecChordwise(w, s) == Rodrigues(w.c, VUnit(s.n), s.twist)
SecUp(w, s)        == VCross(SecChordwise(w, s), s.n)
SecTrailing(w, s)  == VAdd(s.le, VScale(s.chord, SecChordwise(w, s)))

\* a point of section s given in airfoil coordinates
Place(w, s, q) ==
  VAdd(VAdd(w.le, s.le),
       VAdd(VScale(RMul(s.chord, q[1]), SecChordwise(w, s)), VScale(RMul(s.chord, q[2]), SecUp(w, s))))

\* camber line of section s with the control surface of the section inn, sampled chordwise
SecLine(w, s, inn, defl) ==
  LET pts == Sample(FlapMcl(s.mcl, inn.hinge, defl), Fractions(w.cs, w.nc))
  IN  TLCEval([i \in DOMAIN pts |-> Place(w, s, pts[i])])

Mirror(w, p) == VSub(p, VScale(RMul(2, VDot(VSub(p, w.le), w.n)), w.n))

\* lattice points of the k-th wing section: [chordwise][spanwise]
SectionGrid(w, k, defl) ==
  LET inn == w.secs[k]
      out == w.secs[k + 1]
      a   == SecLine(w, inn, inn, defl)
      b   == SecLine(w, out, inn, defl)
      t   == Fractions(inn.ss, inn.ns)
  IN  TLCEval([i \in DOMAIN a |-> [j \in DOMAIN t |-> VLerp(a[i], b[i], t[j])]])
RightGrid(w, k) == SectionGrid(w, k, w.secs[k].defl)
LeftGrid(w, k)  ==
  LET d == IF w.secs[k].cst = "asymmetric" THEN RNeg(w.secs[k].defl) ELSE w.secs[k].defl
      g == SectionGrid(w, k, d)
  IN  TLCEval([i \in DOMAIN g |-> [j \in DOMAIN g[i] |-> Mirror(w, g[i][j])]])

NumSections(w) == Len(w.secs) - 1
HalfColumns(w) == FoldLeft(LAMBDA a, k : a + w.secs[k].ns, 0, [k \in 1 .. NumSections(w) |-> k])
NumColumns(w)  == IF w.sym THEN 2 * HalfColumns(w) ELSE HalfColumns(w)
NumPanels(w)   == w.nc * NumColumns(w)

\* The lattice is built section by section: right panels are appended on the right, their
\* mirror images prepended (reversed) on the left.  A column is <<side, section, j>>.
RECURSIVE ColumnsUpTo(_, _)
ColumnsUpTo(w, k) ==
  IF k = 0 THEN <<>>
  ELSE LET prev == ColumnsUpTo(w, k - 1)
           ns   == w.secs[k].ns
           right == [j \in 1 .. ns |-> <<"right", k, j>>]
           left  == [j \in 1 .. ns |-> <<"left", k, ns + 1 - j>>]
       IN  IF w.sym THEN left \o prev \o right ELSE prev \o right
Columns(w) == ColumnsUpTo(w, NumSections(w))

\* corners of the panel in row i of column col, given the grids
PanelOf(right, left, i, col) ==
  LET j == col[3] IN
  IF col[1] = "right"
  THEN LET g == right[col[2]] IN [fl |-> g[i][j], fr |-> g[i][j + 1], bl |-> g[i + 1][j], br |-> g[i + 1][j + 1]]
  ELSE LET g == left[col[2]]  IN [fl |-> g[i][j + 1], fr |-> g[i][j], bl |-> g[i + 1][j + 1], br |-> g[i + 1][j]]

\* the whole lattice, [row][column]
Lattice(w) ==
  LET right == TLCEval([k \in 1 .. NumSections(w) |-> RightGrid(w, k)])
      left  == TLCEval([k \in 1 .. NumSections(w) |-> IF w.sym THEN LeftGrid(w, k) ELSE <<>>])
      cols  == TLCEval(Columns(w))
  IN  TLCEval([i \in 1 .. w.nc |-> [g \in DOMAIN cols |-> PanelOf(right, left, i, cols[g])]])

PanelClose(p, q, rel, abs) ==
  VNear(p.fl, q.fl, rel, abs) /\ VNear(p.fr, q.fr, rel, abs) /\ VNear(p.bl, q.bl, rel, abs) /\ VNear(p.br, q.br, rel, abs)

(************************* reference dimensions ****************************)
WingUp(w)   == VCross(w.c, w.n)
SumOver(lat, F(_)) == FoldLeft(LAMBDA a, row : RAdd(a, FoldLeft(LAMBDA b, p : RAdd(b, F(p)), 0, row)), 0, lat)
ProjectedArea(w, lat) == LET u == WingUp(w) F(p) == ProjArea(p, u) IN SumOver(lat, F)
WettedArea(lat) == LET F(p) == Area(p) IN SumOver(lat, F)
SectionSpan(w, k) == RAbs(VDot(VSub(w.secs[k + 1].le, w.secs[k].le), w.n))
Twice(w, x) == IF w.sym THEN RMul(2, x) ELSE x
Span(w) == Twice(w, RAbs(VDot(VSub(w.secs[Len(w.secs)].le, w.secs[1].le), w.n)))
MeanAeroChord(w, parea) ==
  LET part(k) == LET a == w.secs[k].chord  b == w.secs[k + 1].chord IN
                 RDiv(RMul(SectionSpan(w, k), RAdd(RAdd(RSq(a), RMul(a, b)), RSq(b))), 3)
  IN  RDiv(Twice(w, FoldLeft(LAMBDA s, k : RAdd(s, part(k)), 0, [k \in 1 .. NumSections(w) |-> k])), parea)
=============================================================================
