------------------------------ MODULE T_Geometry ------------------------------
(* C01, C03: recorded wings and airplanes against Mesh and Panels.             *)
EXTENDS Mesh, TraceBase
VARIABLE l

Tol == RPow(10, -9)
Rows(ev) == Len(ev.panels)
Cols(ev) == Len(ev.panels[1])
Shape(ev) == Rows(ev) = ev.w.nc /\ \A i \in 1 .. Rows(ev) : Len(ev.panels[i]) = NumColumns(ev.w)
AllP(ev, T(_, _)) == \A i \in 1 .. Rows(ev) : \A j \in 1 .. Cols(ev) : T(i, j)

\* columns between which a section boundary lies (the lattice may have a step there only if
\* the two sections are flapped differently)
SameSection(w, j) == LET c == Columns(w) IN c[j][1] = c[j + 1][1] /\ c[j][2] = c[j + 1][2]
SameFlap(w, j) == LET c == Columns(w) IN
  \/ SameSection(w, j)
  \/ \A x \in {j, j + 1} : REq(w.secs[c[x][2]].defl, 0)

MeshClauses(ev) ==
  LET w   == ev.w
      lat == Lattice(w)
      P(i, j) == ev.panels[i][j]
      C2(i, j) == PanelClose(P(i, j), lat[i][j], Tol, Tol)
      Fin(i, j) == VFinite(P(i, j).fl) /\ VFinite(P(i, j).fr) /\ VFinite(P(i, j).bl) /\ VFinite(P(i, j).br)
      LE(i, j) == P(i, j).le = (i = 1)
      TE(i, j) == P(i, j).te = (i = w.nc)
      LeftE(i, j) == P(i, j).left = (j = 1)
      RightE(i, j) == P(i, j).right = (j = NumColumns(w))
      Idx(i, j) == P(i, j).i = i - 1 /\ P(i, j).j = j - 1
      ChordShared(i, j) == i < w.nc => /\ VNear(P(i, j).bl, P(i + 1, j).fl, Tol, Tol)
                                       /\ VNear(P(i, j).br, P(i + 1, j).fr, Tol, Tol)
      SpanShared(i, j) == (j < NumColumns(w) /\ SameFlap(w, j)) =>
                                       /\ VNear(P(i, j).fr, P(i, j + 1).fl, Tol, Tol)
                                       /\ VNear(P(i, j).br, P(i, j + 1).bl, Tol, Tol)
      mj(j) == NumColumns(w) + 1 - j
      nodefl(j) == LET s == w.secs[Columns(w)[j][2]] IN s.cst = "symmetric" \/ REq(s.defl, 0)
      Mir(i, j) == (w.sym /\ nodefl(j)) =>
           PanelClose(P(i, j), [fl |-> Mirror(w, P(i, mj(j)).fr), fr |-> Mirror(w, P(i, mj(j)).fl),
                                bl |-> Mirror(w, P(i, mj(j)).br), br |-> Mirror(w, P(i, mj(j)).bl)], Tol, Tol)
  IN  IF ~Shape(ev) THEN << <<"mesh-shape", FALSE>> >>
      ELSE << <<"mesh-shape", TRUE>>,
              <<"mesh-counts", ev.nspan = NumColumns(w) /\ ev.npanels = NumPanels(w)>>,
              <<"mesh-finite", AllP(ev, Fin)>>,
              <<"mesh-corners", AllP(ev, C2)>>,
              <<"mesh-leading-edge", AllP(ev, LE)>>, <<"mesh-trailing-edge", AllP(ev, TE)>>,
              <<"mesh-left-edge", AllP(ev, LeftE)>>, <<"mesh-right-edge", AllP(ev, RightE)>>,
              <<"mesh-indices", AllP(ev, Idx)>>,
              <<"mesh-chordwise-shared", AllP(ev, ChordShared)>>,
              <<"mesh-spanwise-shared", AllP(ev, SpanShared)>>,
              <<"mesh-mirrored", AllP(ev, Mir)>> >>

\* C03, per panel, from the recorded corners
PanelClauses(ev) ==
  LET P(i, j) == ev.panels[i][j]
      M(i, j) == ev.metrics[i][j]
      N3(a, b) == VNear(a, b, Tol, RPow(10, -12))
      N1(a, b) == RFinite(a) /\ RNear(a, b, Tol, RPow(10, -12))
      Legs(i, j) == /\ N3(M(i, j).rl, RightLeg(P(i, j))) /\ N3(M(i, j).fl, FrontLeg(P(i, j)))
                    /\ N3(M(i, j).ll, LeftLeg(P(i, j)))  /\ N3(M(i, j).bl, BackLeg(P(i, j)))
      Vort(i, j) == N3(M(i, j).frv, FrontRightVortex(P(i, j))) /\ N3(M(i, j).flv, FrontLeftVortex(P(i, j)))
      Col(i, j)  == N3(M(i, j).cp, Colloc(P(i, j)))
      Ar(i, j)   == N1(M(i, j).area, Area(P(i, j)))
      Nrm(i, j)  == N3(M(i, j).n, Normal(P(i, j)))
      Proj(i, j) == \A k \in DOMAIN ev.axes : N1(M(i, j).proj[k], ProjArea(P(i, j), ev.axes[k]))
      Dir(i, j)  == N3(M(i, j).us, Spanwise(P(i, j))) /\ N3(M(i, j).uc, Chordwise(P(i, j)))
      Avg(i, j)  == N1(M(i, j).as, MeanSpan(P(i, j))) /\ N1(M(i, j).ac, MeanChord(P(i, j)))
  IN  << <<"panel-legs", AllP(ev, Legs)>>, <<"panel-vortex-points", AllP(ev, Vort)>>,
         <<"panel-control-point", AllP(ev, Col)>>, <<"panel-area", AllP(ev, Ar)>>,
         <<"panel-normal", AllP(ev, Nrm)>>, <<"panel-projected-area", AllP(ev, Proj)>>,
         <<"panel-directions", AllP(ev, Dir)>>, <<"panel-averages", AllP(ev, Avg)>> >>

N1(a, b) == RFinite(a) /\ RNear(a, b, Tol, RPow(10, -12))
WingClauses(ev) ==
  LET pa == ProjectedArea(ev.w, ev.panels) IN
  << <<"wing-span", N1(ev.span, Span(ev.w))>>,
     <<"wing-projected-area", N1(ev.parea, pa)>>,
     <<"wing-wetted-area", N1(ev.warea, WettedArea(ev.panels))>>,
     <<"wing-standard-mean-chord", Has(ev, "smc") => N1(ev.smc, RDiv(pa, Span(ev.w)))>>,
     <<"wing-mean-aerodynamic-chord", N1(ev.mac, MeanAeroChord(ev.w, pa))>>,
     <<"wing-up", VNear(ev.up, WingUp(ev.w), Tol, RPow(10, -12))>>,
     <<"section-directions", \A k \in DOMAIN ev.secs :
          /\ VNear(ev.secs[k].uc, SecChordwise(ev.w, ev.w.secs[k]), Tol, RPow(10, -12))
          /\ VNear(ev.secs[k].uu, SecUp(ev.w, ev.w.secs[k]), Tol, RPow(10, -12))
          /\ VNear(ev.secs[k].te, SecTrailing(ev.w, ev.w.secs[k]), Tol, RPow(10, -12))>> >>

AirplaneClauses(ev) ==
  << <<"airplane-s-ref", N1(ev.s_ref, IF Has(ev, "given_s") THEN ev.given_s ELSE ev.main.parea)>>,
     <<"airplane-c-ref", N1(ev.c_ref, IF Has(ev, "given_c") THEN ev.given_c ELSE ev.main.mac)>>,
     <<"airplane-b-ref", N1(ev.b_ref, IF Has(ev, "given_b") THEN ev.given_b ELSE ev.main.span)>>,
     <<"airplane-num-panels", ev.npanels = SumSeq([k \in DOMAIN ev.wings |-> NumPanels(ev.wings[k])])>>,
     <<"airplane-reference-point", VNear(ev.xyz, ev.given_ref, Tol, 0)>>,
     <<"airplane-keeps-definition", ev.name = ev.given_name /\ N1(ev.weight, ev.given_weight) /\ ev.wing_names = ev.given_wing_names>> >>

Clauses(ev) ==
  CASE ev.e = "Wing" -> When(On("C01"), MeshClauses(ev))
                        \o When(On("C03") /\ Shape(ev), PanelClauses(ev) \o WingClauses(ev))
    [] ev.e = "Airplane"  -> When(On("C03"), AirplaneClauses(ev))
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses

TInit == l = 1 /\ TraceStart
TNext == l <= Len(Trace) /\ Verdict(l, Trace[l], Clauses(Trace[l])) /\ l' = l + 1
=============================================================================
