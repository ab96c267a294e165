------------------------------ MODULE T_History -------------------------------
(* C14: recorded histories against History.  The reference outcome of each key   *)
(* (a single run on a freshly built problem) is recorded first.                  *)
EXTENDS History, TraceBase
VARIABLES l, st, defs, eds
T9 == RPow(10, -9)
RefIndex == TLCEval([i \in {n \in DOMAIN Trace : Trace[n].e = "Reference"} |-> Key(Trace[i].d, Trace[i].edit, Trace[i].mode)])
Ref(k) == Trace[CHOOSE i \in DOMAIN RefIndex : RefIndex[i] = k].out
Has0(k) == \E i \in DOMAIN RefIndex : RefIndex[i] = k
SameOutcome(o, r) == /\ o.shape = r.shape /\ Len(o.nums) = Len(r.nums)
                     /\ \A i \in DOMAIN o.nums : RFinite(o.nums[i]) /\ RNear(o.nums[i], r.nums[i], T9, RPow(10, -12))
\* every holder that shows the products of a completed run shows those of that run alone
Shows(st2, hs, part) == \A h \in DOMAIN hs : h \in DOMAIN st2 => SameOutcome(hs[h], Ref(st2[h])[part])
EditsAfter(ev) == IF Has(ev, "edit") THEN Put(eds, ev.problem, ev.edit) ELSE eds
KeyOf(ev) == Key(ev.d, EditOf(EditsAfter(ev), ev.problem), ev.mode)
After(ev) == LET st1 == Interrupt(st, ev.place, ev.problem, ev.solver)
             IN  IF ev.broken THEN st1 ELSE Complete(st, ev.place, ev.problem, ev.solver, KeyOf(ev))
OpClauses(ev) ==
  LET st2 == After(ev) IN
  << <<"loads-as-fresh", Shows(st2, ev.places, "place")>>,
     <<"finals-as-fresh", Shows(st2, ev.problems, "problem")>>,
     <<"solver-state-as-fresh", Shows(st2, ev.solvers, "solver")>>,
     <<"definitions-unchanged", \A p \in DOMAIN ev.defs : p \in DOMAIN defs => ev.defs[p] = defs[p]>>,
     <<"holders-present", ev.broken \/ (ev.place \in DOMAIN ev.places /\ ev.solver \in DOMAIN ev.solvers
                                         /\ ev.problem \in DOMAIN ev.problems)>> >>
Clauses(ev) ==
  CASE ev.e = "Reference" -> << <<"reference-finite", \A q \in DOMAIN ev.out : \A i \in DOMAIN ev.out[q].nums : RFinite(ev.out[q].nums[i])>> >>
    [] ev.e = "Start"     -> <<>>
    [] ev.e = "Op"        -> IF Has0(KeyOf(ev)) THEN OpClauses(ev) ELSE << <<"reference-known", FALSE>> >>
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses
TInit == l = 1 /\ st = NoHolders /\ defs = NoHolders /\ eds = NoHolders /\ TraceStart
TNext == /\ l <= Len(Trace)
         /\ LET ev == Trace[l] IN
            /\ Verdict(l, ev, Clauses(ev))
            /\ IF ev.e = "Start" THEN st' = NoHolders /\ defs' = ev.defs /\ eds' = NoHolders
               ELSE IF ev.e = "Op" THEN st' = After(ev) /\ defs' = ev.born @@ defs /\ eds' = EditsAfter(ev)
               ELSE UNCHANGED <<st, defs, eds>>
         /\ l' = l + 1
=============================================================================
