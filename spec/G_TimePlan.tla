------------------------------ MODULE G_TimePlan ------------------------------
(* Generates time-plan scenarios (C05-C07): where in the hierarchy something    *)
(* moves, with which period, and what the user specifies.  Each complete choice *)
(* is printed; the driver replays it into the code.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxMoves, Stride
VARIABLES moves, done, pick
Places1 == {"a1.x", "a1.y", "a1.z", "a1.w1.x", "a1.w1.y", "a1.w2.z", "a1.w1.s1.pitch", "a1.w1.s2.sweep", "a1.w1.s2.pitch",
            "a1.w2.s2.heave", "v"}
Places2 == {"a2.y", "a2.w1.x", "a2.w2.y", "a2.w1.s3.sweep", "a2.w1.s2.heave", "a2.w2.s2.pitch"}
Move(pl, per, am, sp) == [place |-> pl, period |-> per, amp |-> am, spacing |-> sp]
Moves == {Move(pl, per, TRUE, sp) : pl \in Places1 \cup Places2, per \in {3, 8}, sp \in {"sine"}}
         \cup {Move(pl, 5, FALSE, "uniform") : pl \in {"a1.x", "a2.w1.s2.heave"}}
         \cup {Move(pl, 6, TRUE, "uniform") : pl \in {"a1.w1.s2.pitch", "a2.w2.y", "v"}}
Asks == {[dt |-> d, num_steps |-> s, num_cycles |-> cy, num_chords |-> ch, only_final |-> o] :
          d \in {0, 11}, s \in {0, 1, 7}, cy \in {0, 1, 2}, ch \in {0, 1, 2}, o \in BOOLEAN}
Legal(q, static) == /\ (q.num_cycles # 0 => q.num_steps = 0 /\ ~static)
                    /\ (q.num_chords # 0 => q.num_steps = 0 /\ static)
Init == moves = <<>> /\ done = FALSE /\ pick = [x \in {} |-> 0]
Places == {moves[i].place : i \in DOMAIN moves}
Need2 == \E pl \in Places : pl \in Places2
Add == ~done /\ Len(moves) < MaxMoves /\ \E m \in Moves : m.place \notin Places /\ moves' = Append(moves, m) /\ UNCHANGED <<done, pick>>
\* thin out the deterministic enumeration: keep one in Stride of the larger combinations
Hash(q, m, a) == q.dt + 3 * q.num_steps + 5 * q.num_cycles + 7 * q.num_chords + (IF q.only_final THEN 2 ELSE 0) + a
                 + (IF m = <<>> THEN 0 ELSE m[1].period) + (IF Len(m) = 2 THEN 3 * m[2].period ELSE 0)
Finish == /\ ~done /\ done' = TRUE /\ UNCHANGED moves
          /\ \E q \in Asks, a \in 1 .. 4, sw \in BOOLEAN :
               /\ Legal(q, moves = <<>>) /\ (Need2 => a > 1) /\ (sw => a > 1 /\ ~Need2)
               /\ (Len(moves) >= 1 => Hash(q, moves, a) % (Stride * Len(moves) * Len(moves)) = 0)
               /\ pick' = [moves |-> moves, airs |-> a, swap |-> sw] @@ q
Next == Add \/ Finish
Emit == done => PrintT("@@G" \o ToJson(pick))
=============================================================================
