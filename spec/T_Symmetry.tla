------------------------------ MODULE T_Symmetry ------------------------------
(***************************************************************************)
(* A base case followed by a word of transformations; after each one the    *)
(* recorded loads must be the transformed ones (C18).                       *)
(***************************************************************************)
EXTENDS Symmetry, TraceBase
VARIABLES l, ld

Tol == RPow(10, -6)
Got(ev) == [steps |-> ev.steps, finals |-> ev.finals]
Scale(ev) == LET q == RMul(RHalf(ev.def.op.rho), RSq(ev.def.op.v))
                 s == FoldLeft(LAMBDA a, x : RMax(a, x.s), 0, ev.def.airplanes)
                 b == FoldLeft(LAMBDA a, x : RMax(a, RMax(x.b, VNorm(x.ref))), 0, ev.def.airplanes)
             IN  [f |-> RMul(q, s), m |-> RMul(RMul(q, s), b)]
SolvedClauses(ev) ==
  << <<"loads-present", Len(ev.steps) > 0 /\ \A k \in DOMAIN ev.steps : Len(ev.steps[k]) = Len(ev.def.airplanes)>> >> \o
  When(LeftRightSymmetric(ev.def),
       << <<"symmetric-no-lateral-loads", \A k \in DOMAIN ev.steps : \A i \in DOMAIN ev.steps[k] :
              NoLateral(ev.steps[k][i], RMul(Tol, Scale(ev).f), RMul(Tol, Scale(ev).m))>> >>)
ImageClauses(ev) ==
  LET want == TLCEval(Transform(ev.t, ld)) IN
  SolvedClauses(ev) \o
  << <<"known-transformation", ev.t.kind \in Kinds>>,
     <<ev.t.kind \o "-loads", StepsClose(ev.steps, want.steps, Scale(ev), Tol)>>,
     <<ev.t.kind \o "-finals", FinalsClose(ev.finals, want.finals, Scale(ev), Tol)>> >>
Clauses(ev) ==
  CASE ev.e = "Base"  -> SolvedClauses(ev)
    [] ev.e = "Image" -> ImageClauses(ev)
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER -> UnknownClauses
TInit == l = 1 /\ ld = [steps |-> <<>>, finals |-> <<>>] /\ TraceStart
TNext == /\ l <= Len(Trace)
         /\ Verdict(l, Trace[l], Clauses(Trace[l]))
         /\ ld' = IF Trace[l].e = "Base" THEN Got(Trace[l])
                  ELSE IF Trace[l].e = "Image" THEN TLCEval(Transform(Trace[l].t, ld)) ELSE ld
         /\ l' = l + 1
=============================================================================
