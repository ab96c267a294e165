------------------------------- MODULE TimePlan -------------------------------
(***************************************************************************)
(* Step length, number of steps and averaging window (property C07).        *)
(* A plan request rq has optional fields dt, num_steps, num_cycles,         *)
(* num_chords; airs: sequence of [c_ref, nc] (reference chord, chordwise    *)
(* panels of the first wing), v: base speed, periods: every period.         *)
(* Quotients that are integral up to rounding may fall either way, so the   *)
(* counts are given as sets.                                                *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

Given(rq, f) == f \in DOMAIN rq
MaxPeriodOf(periods) == FoldLeft(LAMBDA a, x : RMax(a, x), 0, periods)
MeanOfSeq(s) == RDiv(RSum(s), Len(s))
PlanDt(rq, airs, v) ==
  IF Given(rq, "dt") THEN rq.dt
  ELSE MeanOfSeq([a \in DOMAIN airs |-> RDiv(RDiv(airs[a].c_ref, airs[a].nc), v)])
Slack == RPow(10, -9)
CeilSet(x)  == {RCeil(RSub(x, RMul(Slack, RAdd(1, RAbs(x))))), RCeil(RAdd(x, RMul(Slack, RAdd(1, RAbs(x)))))}
FloorSet(x) == {RFloor(RSub(x, RMul(Slack, RAdd(1, RAbs(x))))), RFloor(RAdd(x, RMul(Slack, RAdd(1, RAbs(x)))))}
PlanSteps(rq, airs, v, periods, dt) ==
  IF Given(rq, "num_steps") THEN {rq.num_steps}
  ELSE LET mp == MaxPeriodOf(periods) IN
       IF REq(mp, 0)
       THEN LET c == FoldLeft(LAMBDA a, x : RMax(a, x.c_ref), 0, airs)
                n == IF Given(rq, "num_chords") THEN rq.num_chords ELSE 10
            IN  CeilSet(RDiv(RMul(n, c), RMul(dt, v)))
       ELSE LET n == IF Given(rq, "num_cycles") THEN rq.num_cycles ELSE 3 IN CeilSet(RDiv(RMul(n, mp), dt))
PlanLegal(rq, periods) ==
  LET mp == MaxPeriodOf(periods) IN
  /\ Given(rq, "num_cycles") => ~Given(rq, "num_steps") /\ ~REq(mp, 0)
  /\ Given(rq, "num_chords") => ~Given(rq, "num_steps") /\ REq(mp, 0)
\* first step of the averaging window
FirstAveragingOf(steps, periods, dt) ==
  LET mp == MaxPeriodOf(periods) IN
  IF REq(mp, 0) THEN {steps - 1}
  ELSE {IF n < 0 THEN 0 ELSE n : n \in FloorSet(RSub(steps, RDiv(mp, dt)))}
=============================================================================
