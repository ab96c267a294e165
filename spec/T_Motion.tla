------------------------------- MODULE T_Motion -------------------------------
(* C05, C06, C07: recorded motions against Motion and TimePlan.                 *)
EXTENDS Motion, TimePlan, Mesh, Snapshots, TraceBase
VARIABLE l
T9 == RPow(10, -9)
T12 == RPow(10, -12)
N1(a, b) == RFinite(a) /\ RNear(a, b, T9, T9)
N3(a, b) == VNear(a, b, T9, T9)

(********************************** C05 ************************************)
\* ev.m: definition of the motion; ev.snaps[a][k]: snapshots; ev.ops[k]
Wdef(ev, a, w) == ev.m.airs[a].base.wings[w]
Wmov(ev, a, w) == ev.m.airs[a].wings[w]
Bases(ev, a, w) == [n \in DOMAIN Wdef(ev, a, w).secs |-> Wdef(ev, a, w).secs[n].le]
MotionClauses(ev) ==
  LET As == DOMAIN ev.m.airs
      Ks == 1 .. ev.steps
      t(k) == Time(k - 1, ev.dt)
      counts == /\ Len(ev.snaps) = Len(ev.m.airs) /\ Len(ev.ops) = ev.steps
                /\ \A a \in As : Len(ev.snaps[a]) = ev.steps
                /\ \A a \in As : \A k \in DOMAIN ev.snaps[a] :
                     /\ Len(ev.snaps[a][k].wings) = Len(ev.m.airs[a].wings)
                     /\ \A w \in DOMAIN ev.snaps[a][k].wings :
                          Len(ev.snaps[a][k].wings[w].secs) = Len(Wmov(ev, a, w).secs)
  IN  IF ~counts THEN << <<"one-snapshot-per-step", FALSE>> >>
      ELSE << <<"one-snapshot-per-step", TRUE>>,
         <<"airplane-position", \A a \in As : \A k \in Ks : LET d == ev.m.airs[a] IN
              N3(ev.snaps[a][k].ref, OscPoint(d.x, d.y, d.z, d.base.ref, t(k)))>>,
         <<"wing-position", \A a \in As : \A k \in Ks : \A w \in DOMAIN ev.m.airs[a].wings : LET d == Wmov(ev, a, w) IN
              N3(ev.snaps[a][k].wings[w].le, OscPoint(d.x, d.y, d.z, Wdef(ev, a, w).le, t(k)))>>,
         <<"section-position", \A a \in As : \A w \in DOMAIN ev.m.airs[a].wings :
              LET bs == Bases(ev, a, w) ms == Wmov(ev, a, w).secs IN
              \A k \in Ks : LET path == TLCEval(SectionPath(bs, ms, t(k))) IN
                 \A n \in DOMAIN bs : N3(ev.snaps[a][k].wings[w].secs[n].le, path[n])>>,
         <<"section-twist", \A a \in As : \A w \in DOMAIN ev.m.airs[a].wings :
              LET bs == Bases(ev, a, w) ms == Wmov(ev, a, w).secs IN
              \A k \in Ks : \A n \in DOMAIN bs :
                 N1(ev.snaps[a][k].wings[w].secs[n].twist, SectionTwist(bs, ms, n, Wdef(ev, a, w).secs[n].twist, t(k)))>>,
         <<"section-distance-kept", \A a \in As : \A w \in DOMAIN ev.m.airs[a].wings : \A k \in Ks :
              LET bs == Bases(ev, a, w) ss == ev.snaps[a][k].wings[w].secs IN
              \A n \in 2 .. Len(bs) : N1(VNorm(VSub(ss[n].le, ss[n - 1].le)), VNorm(Offset(bs, n)))>>,
         <<"flight-speed", \A k \in Ks : N1(ev.ops[k].v, Osc(ev.m.opm.v, ev.m.opm.base.v, t(k)))>> >>

\* the lattice of a snapshot is the lattice of the base wing with its sections moved
SnapshotClauses(ev) ==
  << <<"snapshot-lattice", LET lat == Lattice(ev.w) IN
        /\ Len(ev.panels) = ev.w.nc
        /\ \A i \in 1 .. ev.w.nc : /\ Len(ev.panels[i]) = NumColumns(ev.w)
                                   /\ \A j \in 1 .. NumColumns(ev.w) : PanelClose(ev.panels[i][j], lat[i][j], T9, T9)>> >>

(********************************** C06 ************************************)
\* snapshot s of an object and its base b: equal attribute by attribute
Same(s, b) == DOMAIN s = DOMAIN b /\ \A f \in DOMAIN b : s[f] = b[f]
Differ(s, b) == {f \in DOMAIN b : f \notin DOMAIN s \/ s[f] # b[f]}
CarryClauses(ev) ==
  LET As == DOMAIN ev.bases
      AllK(a) == DOMAIN ev.snaps[a]
  IN  << <<"airplane-carried-over", \A a \in As : \A k \in AllK(a) : Same(ev.snaps[a][k].airplane, ev.bases[a].airplane)>>,
         <<"reference-values-carried-over", \A a \in As : \A k \in AllK(a) : \A f \in DOMAIN ev.bases[a].given :
              N1(ev.snaps[a][k].refs[f], ev.bases[a].given[f])>>,
         <<"other-reference-values-follow-geometry", \A a \in As : \A k \in AllK(a) :
              \A f \in {"s_ref", "c_ref", "b_ref"} \ DOMAIN ev.bases[a].given : N1(ev.snaps[a][k].refs[f], ev.snaps[a][k].own[f])>>,
         <<"wings-carried-over", \A a \in As : \A k \in AllK(a) : ev.snaps[a][k].wings = ev.bases[a].wings>>,
         <<"sections-carried-over", \A a \in As : \A k \in AllK(a) : ev.snaps[a][k].secs = ev.bases[a].secs>>,
         <<"airfoils-carried-over", \A a \in As : \A k \in AllK(a) : ev.snaps[a][k].airfoils = ev.bases[a].airfoils>>,
         <<"flight-condition-carried-over", \A k \in DOMAIN ev.ops : Same(ev.ops[k], ev.op)>>,
         <<"base-unchanged", ev.before = ev.after>>,
         <<"snapshots-separate", Distinct(ev.objects)>>,
         <<"still-motion-reproduces-base", ev.still => \A a \in As : \A k \in AllK(a) :
              /\ Len(ev.snaps[a][k].corners) = Len(ev.bases[a].corners)
              /\ \A i \in DOMAIN ev.bases[a].corners : VNear(ev.snaps[a][k].corners[i], ev.bases[a].corners[i], T9, T9)>>,
         <<"still-motion-keeps-state", ev.still => \A a \in As : \A k \in AllK(a) :
              /\ VNear(ev.snaps[a][k].place.ref, ev.bases[a].place.ref, T9, T9)
              /\ \A f \in {"s", "c", "b"} : N1(ev.snaps[a][k].place[f], ev.bases[a].place[f])>> >>

(********************************** C07 ************************************)
PlanClauses(ev) ==
  LET dt == PlanDt(ev.rq, ev.airs, ev.v) IN
  << <<"max-period", N1(ev.max_period, MaxPeriodOf(ev.periods)) /\ N1(ev.problem_period, MaxPeriodOf(ev.periods))>>,
     <<"level-periods", \A i \in DOMAIN ev.levels : N1(ev.levels[i].max, MaxPeriodOf(ev.levels[i].periods))>>,
     <<"step-length", N1(ev.dt, dt) /\ N1(ev.problem_dt, dt)>>,
     <<"step-count", ev.steps \in PlanSteps(ev.rq, ev.airs, ev.v, ev.periods, ev.dt) /\ ev.problem_steps = ev.steps>>,
     <<"averaging-window", ev.first_avg \in FirstAveragingOf(ev.steps, ev.periods, ev.dt) /\ ev.first_avg >= 0>>,
     <<"first-results", ev.first_results = IF ev.only_final THEN ev.first_avg ELSE 0>>,
     \* pairs[k]: which snapshot (step) of each airplane and of the flight condition problem k holds
     <<"pairing", /\ Len(ev.pairs) = ev.steps
                  /\ \A k \in DOMAIN ev.pairs : /\ ev.pairs[k].op = k - 1
                                                /\ Len(ev.pairs[k].airs) = Len(ev.airs)
                                                /\ \A a \in DOMAIN ev.pairs[k].airs : ev.pairs[k].airs[a] = <<a - 1, k - 1>> >> >>

Clauses(ev) ==
  CASE ev.e = "Motion"    -> When(On("C05"), MotionClauses(ev))
    [] ev.e = "Snapshot"  -> When(On("C05"), SnapshotClauses(ev))
    [] ev.e = "Carry"     -> When(On("C06"), CarryClauses(ev))
    [] ev.e = "Plan"      -> When(On("C07"), PlanClauses(ev))
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses
TInit == l = 1 /\ TraceStart
TNext == l <= Len(Trace) /\ Verdict(l, Trace[l], Clauses(Trace[l])) /\ l' = l + 1
=============================================================================
