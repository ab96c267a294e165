----------------------------- MODULE MC_TimePlan -----------------------------
(* Every combination of plan requests in small bounds (C07): choices are made   *)
(* one at a time, then the run advances over the planned steps.  Reals are      *)
(* derived from the integer choices (hundredths of a second, tenths of chord).  *)
EXTENDS TimePlan
CONSTANTS Ps, MaxSteps
VARIABLES ask, airc, pers, phase, step, n
vars == <<ask, airc, pers, phase, step, n>>
V == 8
rq == (IF ask.dt = 0 THEN [x \in {} |-> 0] ELSE [dt |-> RRat(ask.dt, 100)])
      @@ (IF ask.how = "none" THEN [x \in {} |-> 0] ELSE ask.how :> ask.m)
airs == [a \in DOMAIN airc |-> [c_ref |-> RRat(airc[a][1], 10), nc |-> airc[a][2]]]
periods == [i \in DOMAIN pers |-> RRat(pers[i], 10)]
dt == PlanDt(rq, airs, V)
Nothing == [dt |-> 0, how |-> "none", m |-> 1]
Init == ask = Nothing /\ airc = <<>> /\ pers = <<>> /\ phase = "airs" /\ step = 0 /\ n = 0
AddAirplane == /\ phase = "airs" /\ Len(airc) < 2
               /\ \E c \in {10, 17}, nc \in {1, 3} : airc' = Append(airc, <<c, nc>>)
               /\ UNCHANGED <<ask, pers, phase, step, n>>
AddPeriod == /\ phase = "airs" /\ airc # <<>> /\ Len(pers) < 3
             /\ \E p \in Ps : pers' = Append(pers, p)
             /\ UNCHANGED <<ask, airc, phase, step, n>>
Ask == /\ phase = "airs" /\ airc # <<>> /\ phase' = "asked"
       /\ \E d \in {0, 5, 7}, how \in {"none", "num_steps", "num_cycles", "num_chords"}, m \in 1 .. 3 :
            /\ how = "none" => m = 1
            /\ ask' = [dt |-> d, how |-> how, m |-> m]
       /\ UNCHANGED <<airc, pers, step, n>>
Plan == /\ phase = "asked" /\ PlanLegal(rq, periods)
        /\ n' \in PlanSteps(rq, airs, V, periods, dt)
        /\ phase' = "run" /\ step' = 0 /\ UNCHANGED <<ask, airc, pers>>
Advance == phase = "run" /\ step < n - 1 /\ step < MaxSteps /\ step' = step + 1 /\ UNCHANGED <<ask, airc, pers, phase, n>>
Next == AddAirplane \/ AddPeriod \/ Ask \/ Plan \/ Advance
Mp == MaxPeriodOf(periods)
Running == phase = "run"
Positive == Running => RLt(0, dt) /\ n >= 1
\* a refused request is one that mixes incompatible kinds of length
Refusals == (phase = "asked" /\ ~PlanLegal(rq, periods)) =>
   \/ ask.how = "num_cycles" /\ \A i \in DOMAIN pers : pers[i] = 0
   \/ ask.how = "num_chords" /\ \E i \in DOMAIN pers : pers[i] # 0
\* the window is inside the run, and covers one longest cycle when the run is that long
WindowInside == Running => \A f \in FirstAveragingOf(n, periods, dt) :
  /\ f >= 0 /\ f <= n - 1
  /\ (~REq(Mp, 0)) => \/ f = 0
                      \/ /\ RLe(RSub(Mp, RPow(10, -6)), RMul(n - f, dt))             \* at least one cycle
                         /\ RLt(RMul(n - f - 1, dt), RAdd(Mp, RPow(10, -6)))         \* and less than one step more
  /\ REq(Mp, 0) => f = n - 1
\* just enough steps for what was asked for
Enough == (Running /\ ~Given(rq, "num_steps")) =>
  LET want == IF REq(Mp, 0)
              THEN RDiv(RMul(IF Given(rq, "num_chords") THEN rq.num_chords ELSE 10,
                             FoldLeft(LAMBDA a, x : RMax(a, x.c_ref), 0, airs)), V)
              ELSE RMul(IF Given(rq, "num_cycles") THEN rq.num_cycles ELSE 3, Mp)
  IN  RLe(RSub(want, RPow(10, -6)), RMul(n, dt)) /\ RLt(RMul(n - 1, dt), RAdd(want, RPow(10, -6)))
\* the longest period governs whatever the order in which periods were given
Governs == \A i \in DOMAIN pers : RLe(periods[i], Mp)
=============================================================================
