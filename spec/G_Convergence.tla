----------------------------- MODULE G_Convergence -----------------------------
(* Enumerates convergence studies (C16): ranges of every parameter, criterion,   *)
(* and tables of loads.  A table is a pseudo-random function of its salt; each   *)
(* mood has its own levels, so that studies settle early, late, or never.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Stride, Salts
VARIABLES pick, done
Seed == atoi(IOEnv.SEED)
Methods == <<"horseshoe", "ring", "static", "moving">>
ARs == << <<3, 1>>, <<2, 1>>, <<1, 1>>, <<4, 2>>, <<2, 2>>, <<5, 4>>, <<8, 6>> >>
Chords == << <<1, 3>>, <<2, 3>>, <<2, 2>>, <<1, 4>>, <<6, 7>> >>
Lengths == << <<1, 2>>, <<2, 2>>, <<1, 3>>, <<4, 5>> >>
Wakes == << <<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>> >>
Moods == << <<100, 104, 108>>, <<100, 104, 150>>, <<100, 103, 106, 300>>, <<100, 200, 400>>, <<100, 105, 110>> >>
Crits == << <<5, 2>>, <<5, 60>>, <<5, 3>>, <<100, 60>>, <<6, 2>> >>      \* for each mood
Masks == << <<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE, FALSE, FALSE, FALSE>>, <<FALSE, FALSE, TRUE, FALSE, TRUE, FALSE>>,
            <<FALSE, FALSE, FALSE, FALSE, TRUE, TRUE>>, <<>> >>
Dims == << Len(Methods), Len(ARs), Len(Chords), Len(Lengths), Len(Wakes), Len(Moods), 2, Len(Masks), Salts >>
Hash(s) == FoldLeft(LAMBDA a, i : (a * 131 + i * 31 + 7) % 9973, Seed, s)
Init == pick = <<>> /\ done = FALSE
\* ranges that the kind of study does not use are not varied
Unused(n) == pick # <<>> /\ pick[1] <= 2 /\ n \in {4, 5, 8}
Choose == /\ Len(pick) < Len(Dims)
          /\ LET n == Len(pick) + 1 IN \E i \in 1 .. Dims[n] : /\ Unused(n) => i = 1
                                                               /\ (n = 3 /\ pick[1] > 2) => i < 5
                                                               /\ (n = 4 /\ pick[1] > 2 /\ pick[3] # 3) => i < 4
                                                               /\ pick' = Append(pick, i)
          /\ Len(pick') \in {6, 9} => Hash(pick') % (IF Len(pick') = 6 THEN 5 ELSE IF pick'[1] <= 2 THEN 1 + Stride \div 12 ELSE Stride) = 0
          /\ done' = FALSE
Finish == Len(pick) = Len(Dims) /\ ~done /\ done' = TRUE /\ UNCHANGED pick
Next == Choose \/ Finish
Level(n) == LET m == Moods[pick[6]]  h == Hash(pick \o <<n>>)
            IN  m[((((h * h) % 99991) \div 13) % Len(m)) + 1]
\* the last kind of mask is any one that leaves something in
AnyMask == LET h == Hash(pick \o <<77>>) IN [q \in 1 .. 6 |-> ((h \div (2 ^ q)) % 2 = 1) \/ q = 1 + (h % 6)]
Case == [method |-> Methods[pick[1]], ars |-> ARs[pick[2]], chords |-> Chords[pick[3]], lengths |-> Lengths[pick[4]],
         prescribed |-> Wakes[pick[5]][1], free |-> Wakes[pick[5]][2], crit |-> Crits[pick[6]][pick[7]], mask |-> IF pick[8] = Len(Masks) THEN AnyMask ELSE Masks[pick[8]],
         usemask |-> pick[8] # 1, salt |-> pick[9], levels |-> TLCEval([n \in 1 .. 48 |-> Level(n)])]
Emit == done => PrintT("@@G" \o ToJson(Case))
=============================================================================
