--------------------------------- MODULE T_Trim ---------------------------------
(* Recorded trim searches against Trim (C15).  A search is a Begin, then Stage and *)
(* Eval events, then an End.                                                       *)
EXTENDS Trim, TraceBase
VARIABLES l, st, from
Tol == RPow(10, -9)
B == Trace[from]                         \* the Begin of the current search
Steady == B.kind = "steady"
\* the loads the evaluation is about: the only ones, the last ones, or the means of the last cycle
Loads(ev) == IF Steady THEN [f |-> ev.cf, m |-> ev.cm]
             ELSE IF B.moving THEN [f |-> ev.fin.mCF[1], m |-> ev.fin.mCM[1]]
             ELSE [f |-> ev.fin.CF[1], m |-> ev.fin.CM[1]]
Seen(ev) == << ev.op.v, ev.op.alpha, ev.op.beta >>
ResidualOf(ev, thrust) ==
  LET ld == Loads(ev) IN Residual(ld.f, ld.m, Target(ev.op.rho, ev.op.v, B.s, thrust, B.w))
\* the thrust of an evaluation: argument of the objective, when it could be observed
Knows(ev) == ~Steady \/ Has(ev, "x")
ThrustOf(ev) == IF Steady THEN ev.x[4] ELSE 0
Res(ev) == ResidualOf(ev, ThrustOf(ev))
Below(ev) == Knows(ev) /\ RLt(Res(ev), RSub(B.cut, RMul(Tol, B.cut)))      \* surely acceptable
Above(ev) == RLe(RAdd(B.cut, RMul(Tol, B.cut)), Res(ev))                   \* surely not
N == IF Steady THEN 4 ELSE 3
Nothing(out) == \A i \in DOMAIN out : RIsNaN(out[i])
Number(out) == \A i \in DOMAIN out : RFinite(out[i])
EvalClauses(ev) ==
  << <<"evaluates-only-while-searching", MayEvaluate(st)>>,
     <<"one-airplane-state", ev.uniform>>,
     <<"evaluates-the-given-airplane", ev.airplane = B.airplane>>,
     <<"evaluates-the-given-air", REq(ev.op.rho, B.op.rho) /\ REq(ev.op.nu, B.op.nu)>> >>
  \o When(Has(ev, "x"), << <<"solves-proposed-state", Len(ev.x) = N /\ \A i \in 1 .. 3 : REq(ev.x[i], Seen(ev)[i])>> >>)
  \o When(Has(ev, "val"), << <<"objective-is-residual", RNear(ev.val, Res(ev), Tol, Tol)>>,
                             <<"keeps-searching-only-above-cut-off", ~Below(ev)>> >>)
EndClauses(ev) ==
  LET inb == InBounds(B.start, B.bounds)
      last == Trace[l - 1]
      evals == {k \in from + 1 .. l - 1 : Trace[k].e = "Eval"}
      le == CHOOSE k \in evals : \A j \in evals : j <= k
  IN
  IF ev.rejected THEN << <<"rejects-only-bad-start", Steady /\ ~inb>>, <<"rejects-before-evaluating", evals = {}>> >>
  ELSE << <<"rejects-start-out-of-bounds", ~Steady \/ inb>>,
          <<"answer-size", Len(ev.out) = N>>,
          <<"answer-all-or-nothing", Nothing(ev.out) \/ Number(ev.out)>>,
          <<"evaluates", evals # {}>>,
          <<"effort-is-limited", MayStop(st.evals, B.calls)>> >>
       \o When(Nothing(ev.out), << <<"nothing-only-if-none-acceptable", st.accepted = <<>> >> >>
                                \o When(ev.staged, << <<"nothing-only-after-global", MayEnd(st)>> >>))
       \o When(Number(ev.out) /\ Len(ev.out) = N /\ evals # {},
            LET x == Trace[le] IN
            << <<"answer-was-evaluated", /\ \A i \in 1 .. 3 : REq(ev.out[i], Seen(x)[i])
                                         /\ Has(x, "x") => \A i \in 1 .. N : REq(ev.out[i], x.x[i])>>,
               <<"answer-is-trimmed", RLt(ResidualOf(x, IF Steady THEN ev.out[4] ELSE 0), RAdd(B.cut, RMul(Tol, B.cut)))>>,
               <<"answer-within-bounds", InBounds(ev.out, B.bounds)>> >>)
LeftClauses(ev) ==
  << <<"leaves-the-airplane", ev.airplane = B.airplane>>,
     <<"leaves-the-air", REq(ev.op.rho, B.op.rho) /\ REq(ev.op.nu, B.op.nu)>> >>
Clauses(ev) ==
  CASE ev.e = "Begin" -> << <<"begin", TRUE>> >>
    [] ev.e = "Stage" -> << <<"local-before-global", IF ev.stage = "local" THEN st.phase = "local" /\ st.evals = 0 ELSE MayGoGlobal(st)>> >>
    [] ev.e = "Eval"  -> EvalClauses(ev)
    [] ev.e = "End"   -> EndClauses(ev) \o LeftClauses(ev)
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER -> UnknownClauses
After(ev) ==
  CASE ev.e = "Begin" -> Start(Fresh, TRUE)
    [] ev.e = "Stage" -> IF ev.stage = "global" THEN GoGlobal(st) ELSE st
    [] ev.e = "Eval"  -> Evaluate(st, Seen(ev), Below(ev))
    [] OTHER -> st
TInit == l = 1 /\ st = Fresh /\ from = 0 /\ TraceStart
TNext == /\ l <= Len(Trace)
         /\ Verdict(l, Trace[l], Clauses(Trace[l]))
         /\ from' = IF Trace[l].e = "Begin" THEN l ELSE from
         /\ st' = After(Trace[l])
         /\ l' = l + 1
=============================================================================
