--------------------------------- MODULE G_Trim ---------------------------------
(* Enumerates searches (C15): kind of problem, place of the start with respect to *)
(* each pair of bounds, and a script of residuals: how the load field leans, which *)
(* evaluation is the first to be acceptable (99999: none), how the residual is     *)
(* split between forces and moments there and at the near misses before it.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Stride, Ns
VARIABLES pick, done
NsDef == << 0, 1, 3, 5, 6, 9, 30, 60, 90, 120, 150, 200, 99999 >>
Kinds  == <<"steady", "static", "moving">>
Places == <<"mid", "low", "high", "below", "above">>
Leans  == <<"flat", "out", "up", "field", "rough">>
Hits   == <<"both", "force", "moment", "edge">>
Misses == <<"far", "force", "moment", "both">>
Cuts   == << 100, 10000, 200000, 1500000 >>      \* millionths
Dims == << Len(Kinds), 16, Len(Leans), Len(Ns), Len(Hits), Len(Misses), Len(Cuts) >>
\* where the start lies: in the middle, all low, all high, or one variable outside
PlaceOf(i, v) == IF i <= 4 THEN "mid" ELSE IF i <= 6 THEN "low" ELSE IF i <= 8 THEN "high"
                 ELSE IF v = ((i - 9) % 4) + 1 THEN (IF i <= 12 THEN "below" ELSE "above") ELSE "mid"
Seed == atoi(IOEnv.SEED)
Hash(s) == FoldLeft(LAMBDA a, i : (a * 131 + i * 31 + 7) % 9973, Seed, s)
Init == pick = <<>> /\ done = FALSE
Choose == /\ Len(pick) < Len(Dims)
          /\ \E i \in 1 .. Dims[Len(pick) + 1] : pick' = Append(pick, i)
          /\ Len(pick') = Len(Dims) => Hash(pick') % Stride = 0
          /\ done' = FALSE
Finish == Len(pick) = Len(Dims) /\ ~done /\ done' = TRUE /\ UNCHANGED pick
Next == Choose \/ Finish
Case == [kind |-> Kinds[pick[1]], start |-> [v \in 1 .. 4 |-> PlaceOf(pick[2], v)], lean |-> Leans[pick[3]], n |-> Ns[pick[4]],
         hit |-> Hits[pick[5]], miss |-> Misses[pick[6]], cut |-> Cuts[pick[7]]]
Emit == done => PrintT("@@G" \o ToJson(Case))
=============================================================================
