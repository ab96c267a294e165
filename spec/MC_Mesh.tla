-------------------------------- MODULE MC_Mesh --------------------------------
(* Exhaustive check of the lattice construction (C01) and of the panel and      *)
(* reference definitions (C03): every combination of section count, panel       *)
(* counts, symmetry, spacing, control-surface kind and deflection in small      *)
(* bounds.  The wing is built section by section, then completed.               *)
EXTENDS Mesh, FiniteSets
CONSTANTS MaxSections, MaxNs, MaxNc
VARIABLES w, done
vars == <<w, done>>
\* a cambered camber line with few points
Line == << <<0, 0>>, <<Half, RRat(1, 10)>>, <<RRat(8, 10), RRat(1, 20)>>, <<1, 0>> >>
Sec(y, z, ns, cst, defl) == [le |-> <<RRat(y, 4), y, z>>, chord |-> RSub(2, RRat(y, 5)), n |-> <<0, 1, 0>>, twist |-> 3 * y,
    cst |-> cst, hinge |-> RRat(7, 10), defl |-> defl, ns |-> ns, ss |-> IF ns = 2 THEN "cosine" ELSE "uniform", mcl |-> Line]
Kinds == {"symmetric", "asymmetric"}
Init == /\ done = FALSE
        /\ \E sym \in BOOLEAN, nc \in 1 .. MaxNc, cs \in {"cosine", "uniform"}, ns \in 1 .. MaxNs, k \in Kinds, d \in {0, 20} :
             w = [le |-> <<1, RHalf(1), -1>>, n |-> <<0, 1, 0>>, c |-> <<1, 0, 0>>, sym |-> sym, nc |-> nc, cs |-> cs,
                  secs |-> << Sec(0, 0, ns, k, d) >>]
AddSection == /\ ~done /\ Len(w.secs) <= MaxSections
              /\ \E ns \in 1 .. MaxNs, k \in Kinds :
                   w' = [w EXCEPT !.secs = Append(@, Sec(Len(w.secs), IF ns = 1 THEN 0 ELSE 1, ns, k, 0))]
              /\ UNCHANGED done
Finish == ~done /\ Len(w.secs) >= 2 /\ done' = TRUE /\ UNCHANGED w
Next == AddSection \/ Finish

T == RPow(10, -10)
Cols == Columns(w)
Good == done => LET lat == Lattice(w) IN
  /\ Len(lat) = w.nc /\ \A i \in 1 .. w.nc : Len(lat[i]) = NumColumns(w)
  \* exactly one column per cell and side
  /\ Cardinality({Cols[j] : j \in 1 .. NumColumns(w)}) = NumColumns(w)
  \* left tip to right tip
  /\ \A j \in 1 .. NumColumns(w) - 1 : RLe(lat[1][j].fl[2], lat[1][j + 1].fl[2])
  /\ \A i \in 1 .. w.nc : \A j \in 1 .. NumColumns(w) : LET p == lat[i][j] IN
       \* positive area, upward normal, control point inside the span of the panel
       /\ RLt(0, Area(p)) /\ RLt(0, Normal(p)[3])
       /\ RLe(p.fl[2], Colloc(p)[2]) /\ RLe(Colloc(p)[2], p.fr[2])
       /\ RLe(ProjArea(p, WingUp(w)), RAdd(Area(p), T))
       /\ RClose(RSum(<<VDot(Spanwise(p), Spanwise(p)), VDot(Chordwise(p), Chordwise(p)), VDot(Normal(p), Normal(p))>>), 3, T)
       /\ VClose(VAdd(VAdd(RightLeg(p), FrontLeg(p)), VAdd(LeftLeg(p), BackLeg(p))), VZero, T)
       \* neighbours share corners
       /\ i < w.nc => VClose(p.bl, lat[i + 1][j].fl, T) /\ VClose(p.br, lat[i + 1][j].fr, T)
       /\ (j < NumColumns(w) /\ Cols[j][2] = Cols[j + 1][2] /\ Cols[j][1] = Cols[j + 1][1]) =>
             VClose(p.fr, lat[i][j + 1].fl, T) /\ VClose(p.br, lat[i][j + 1].bl, T)
       \* mirrored half
       /\ (w.sym /\ (w.secs[Cols[j][2]].cst = "symmetric" \/ w.secs[Cols[j][2]].defl = 0)) =>
             LET q == lat[i][NumColumns(w) + 1 - j] IN
             PanelClose(p, [fl |-> Mirror(w, q.fr), fr |-> Mirror(w, q.fl), bl |-> Mirror(w, q.br), br |-> Mirror(w, q.bl)], T, T)
\* antisymmetric deflection: right trailing edge down, left up, at the hinge and ahead identical
Aileron == (done /\ w.sym /\ w.secs[1].cst = "asymmetric" /\ w.secs[1].defl # 0) =>
   LET lat == Lattice(w)
       mid == NumColumns(w) \div 2
       r == lat[w.nc][mid + 1]
       q == lat[w.nc][mid]
   IN RLt(r.bl[3], q.br[3])
RefDims == done => LET lat == Lattice(w) pa == ProjectedArea(w, lat) IN
   /\ RLe(pa, RAdd(WettedArea(lat), T))
   /\ RClose(Span(w), IF w.sym THEN 2 * NumSections(w) ELSE NumSections(w), T)
   /\ RLt(0, MeanAeroChord(w, pa))
=============================================================================
