---------------------------------- MODULE Trim ----------------------------------
(* The trim search as a state machine (C15).  A search has bounds (one pair per   *)
(* variable), a start and a cut-off.  Its state st:                               *)
(*   phase     "start" -> "rejected" | "local" -> "global" -> ended               *)
(*   accepted  <<>> or the one-element sequence of the state found acceptable     *)
(*   evals     number of evaluations so far                                       *)
EXTENDS Reals64, TLC

InBounds(x, bounds) == \A i \in DOMAIN bounds : RLe(bounds[i][1], x[i]) /\ RLe(x[i], bounds[i][2])
\* the loads that weight and thrust ask for, as wind-axes coefficients (drag, side force, lift)
Target(rho, v, area, thrust, weight) ==
  LET qs == RMul(RMul(RHalf(rho), RSq(v)), area) IN << RDiv(thrust, qs), 0, RDiv(weight, qs) >>
Residual(cf, cm, target) == RHalf(RAdd(VNorm(VSub(cf, target)), VNorm(cm)))

Fresh == [phase |-> "start", accepted |-> <<>>, evals |-> 0]
MayStart(st)    == st.phase = "start"
Start(st, ok)   == [st EXCEPT !.phase = IF ok THEN "local" ELSE "rejected"]
MayEvaluate(st) == st.phase \in {"local", "global"} /\ st.accepted = <<>>
Evaluate(st, x, acceptable) ==
  [st EXCEPT !.evals = @ + 1, !.accepted = IF acceptable THEN <<x>> ELSE <<>>]
MayGoGlobal(st) == st.phase = "local" /\ st.accepted = <<>>
GoGlobal(st)    == [st EXCEPT !.phase = "global"]
\* The caller limits the effort: each of the searches (the local, the global and the global's own
\* local one) looks at the limit only between its steps, which evaluate a few dozen states.
MayStop(evals, calls) == evals <= 4 * calls + 500
\* a search ends when it has accepted a state, or when the global search is exhausted
MayEnd(st)      == st.accepted # <<>> \/ st.phase = "global"
=============================================================================
