------------------------------ MODULE G_History --------------------------------
(* Enumerates histories of operations on three steady and three unsteady         *)
(* problems (C14): which problem, which kind of run, and whether with the same   *)
(* solver, a new solver, a newly built problem, interrupted, or after an edit.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Stride
VARIABLES ops, done
Steady == {"A", "B", "C"}
Unsteady == {"U", "V", "W"}
\* the user changes the operating point of a problem (or the reference values of C's airplane), then runs a new solver
EditKinds(d) == {"edit1", "edit2", "edit3", "edit4"} \cup (IF d = "C" THEN {"edit5", "edit6"} ELSE {})
Ops == UNION {{[d |-> d, mode |-> m, how |-> h] : m \in {"horseshoe", "ring"},
                                                       h \in {"again", "new", "fresh", "abort"} \cup EditKinds(d)} : d \in Steady}
       \cup {[d |-> d, mode |-> m, how |-> h] : d \in Unsteady, m \in {"prescribed", "prescribed-streams", "free", "free-streams"},
                                                h \in {"again", "new", "fresh", "abort"}}
DIx(d) == CASE d = "A" -> 0 [] d = "B" -> 1 [] d = "C" -> 2 [] d = "U" -> 3 [] d = "V" -> 4 [] d = "W" -> 5
MIx(m) == CASE m = "horseshoe" -> 0 [] m = "ring" -> 1 [] m = "prescribed" -> 2 [] m = "prescribed-streams" -> 3
            [] m = "free" -> 4 [] m = "free-streams" -> 5
HIx(h) == CASE h = "again" -> 0 [] h = "new" -> 1 [] h = "fresh" -> 2 [] h = "abort" -> 3
            [] h = "edit1" -> 4 [] h = "edit2" -> 5 [] h = "edit3" -> 6 [] h = "edit4" -> 7 [] h = "edit5" -> 8 [] h = "edit6" -> 9
Code(o) == 31 * DIx(o.d) + 7 * MIx(o.mode) + 3 * HIx(o.how)
RECURSIVE Hash(_)
Hash(s) == IF s = <<>> THEN 17 ELSE (Hash(SubSeq(s, 1, Len(s) - 1)) * 131 + Code(s[Len(s)])) % 10007
Init == ops = <<>> /\ done = FALSE
\* histories of two operations are complete up to the thinning; longer ones continue kept prefixes
Keep(s) == Len(s) = 1 \/ Hash(s) % Stride = 0
Add == /\ ~done /\ Len(ops) < MaxOps
       /\ \E o \in Ops : Keep(Append(ops, o)) /\ ops' = Append(ops, o)
       /\ UNCHANGED done
Finish == ~done /\ ops # <<>> /\ done' = TRUE /\ UNCHANGED ops
Next == Add \/ Finish
\* only maximal or short histories are worth running: every prefix of a history is judged too
Emit == (done /\ (Len(ops) = MaxOps \/ Len(ops) = 2)) => PrintT("@@G" \o ToJson([ops |-> ops]))
=============================================================================
