------------------------------ MODULE T_Validity ------------------------------
(* C04: definitions and whether the code accepted them, against Validity.       *)
EXTENDS Validity, TraceBase
VARIABLE l
BuildClauses(ev) ==
  LET ok == WellFormed(ev.d) IN
  << <<IF ok THEN "accepts-valid" ELSE "rejects-ill-formed", ev.accepted = ok>>,
     <<"reported-where-it-occurs", (~ok /\ ~ev.accepted) => ev.at = FirstFault(ev.d)>>,
     <<"raises-an-error", ~ev.accepted => ev.raised>> >>
\* a rejected part leaves nothing behind: the same definition without the fault is accepted afterwards
Clauses(ev) ==
  CASE ev.e = "Build"     -> BuildClauses(ev)
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses
TInit == l = 1 /\ TraceStart
TNext == l <= Len(Trace) /\ Verdict(l, Trace[l], Clauses(Trace[l])) /\ l' = l + 1
=============================================================================
