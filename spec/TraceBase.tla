------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a file of JSON      *)
(* events recorded from the running code, each with a kind `e` and the      *)
(* scenario `id`.  A trace specification consumes one event per step and    *)
(* evaluates the named clauses of the property on it; the verdict is total: *)
(* a false clause is printed and the trace is still followed to its end.    *)
(***************************************************************************)
EXTENDS Reals64, TLC, Json, IOUtils, SequencesExt, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP
On(p) == Prop = p \/ Prop = "ALL"

Bump(m, k) == IF k \in DOMAIN m THEN [m EXCEPT ![k] = @ + 1] ELSE m @@ (k :> 1)

\* clauses: a sequence of <<name, holds>>
Verdict(l, ev, clauses) ==
  \A i \in DOMAIN clauses :
     /\ TLCSet(1, Bump(TLCGet(1), clauses[i][1]))
     /\ IF clauses[i][2] THEN TRUE
        ELSE PrintT("@@F" \o ToJson([l |-> l, id |-> ev.id, e |-> ev.e, clause |-> clauses[i][1]]))

TraceStart == TLCSet(1, [x \in {} |-> 0])
ExceptionClauses == << <<"no-exception", FALSE>> >>
UnknownClauses   == << <<"known-event", FALSE>> >>

\* POSTCONDITION of every trace specification
Consumed ==
  /\ PrintT("@@D" \o ToJson([events |-> Len(Trace), clauses |-> TLCGet(1)]))
  /\ TLCGet("stats").diameter = Len(Trace) + 1

Cat(a, b) == a \o b
\* If(c, seq): the clauses seq when c holds, none otherwise
When(c, s) == IF c THEN s ELSE <<>>
Has(ev, f) == f \in DOMAIN ev
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
SumSeq(s)  == FoldLeft(LAMBDA a, x : a + x, 0, s)
=============================================================================
