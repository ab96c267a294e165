------------------------------- MODULE History --------------------------------
(***************************************************************************)
(* Histories of builds and runs (property C14).  Results live in three      *)
(* kinds of holders: the geometry (a place: the airplanes of a problem or   *)
(* the snapshots of a movement), the problem, and the solver.  The only     *)
(* thing that determines what a holder shows is the last completed run that *)
(* wrote to it, identified by its key (definition, which edit of it, mode). *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* st: function from holder to the key it shows; a holder no run has finished on is absent
NoHolders == [h \in {} |-> "none"]
Put(st, h, k) == [x \in DOMAIN st \cup {h} |-> IF x = h THEN k ELSE st[x]]
Drop(st, hs)  == [x \in DOMAIN st \ hs |-> st[x]]
\* edits: how often, or how, the user has changed each problem since it was built
EditOf(eds, p) == IF p \in DOMAIN eds THEN eds[p] ELSE 0
Key(d, edit, mode) == d \o ToString(edit) \o "-" \o mode
\* a completed run with key k of solver s on problem p whose geometry is g
Complete(st, g, p, s, k) == Put(Put(Put(st, g, k), p, k), s, k)
\* a run that was interrupted leaves its holders undetermined until a run completes on them
Interrupt(st, g, p, s) == Drop(st, {g, p, s})
=============================================================================
