------------------------------ MODULE G_Symmetry ------------------------------
(* Enumerates words of transformations of a base case (C18): the family of the *)
(* case, the method, and up to three transformations, each with a variant.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Stride, MaxWord
VARIABLES pick, done
Families == <<"plane", "finned", "skewed", "canted", "pair", "trio", "tailed", "flapped", "jointed">>
Methods  == <<"horseshoe", "ring", "prescribed", "free">>
Words    == <<"mirror", "move", "airplanes", "wings", "rename", "density", "speed", "size", "unfold", "turn", "split">>
Applies(f, m, w) ==
  /\ w = "airplanes" => f \in {"pair", "trio"}
  /\ w = "wings"  => f \in {"finned", "trio", "tailed"}
  /\ w = "unfold" => f \in {"plane", "tailed", "pair"}
  /\ w = "turn"   => f \in {"plane", "skewed", "pair", "tailed", "jointed"}
  \* trailing legs of the steady methods are as long as their own wing's span says
  /\ w = "split"  => f = "jointed" /\ m \in {"prescribed", "free"}
Seed == atoi(IOEnv.SEED)
Hash(s) == FoldLeft(LAMBDA a, i : (a * 131 + i * 31 + 7) % 9973, Seed, s)
Init == pick = <<>> /\ done = FALSE
Choose == /\ Len(pick) < 2 + MaxWord /\ ~done
          /\ \E i \in 1 .. (IF Len(pick) = 0 THEN Len(Families) ELSE IF Len(pick) = 1 THEN Len(Methods) ELSE Len(Words)) :
               /\ Len(pick) >= 2 => /\ Applies(Families[pick[1]], Methods[pick[2]], Words[i])
                                    /\ \A k \in 3 .. Len(pick) : pick[k] # i     \* each at most once
               /\ pick' = Append(pick, i)
          /\ Len(pick') = 2 + MaxWord => Hash(pick') % Stride = 0
          /\ done' = FALSE
\* unfolding may only come last but for turning and moving: it leaves the family
Finish == Len(pick) = 2 + MaxWord /\ ~done /\ done' = TRUE /\ UNCHANGED pick
Next == Choose \/ Finish
Emit == done => PrintT("@@G" \o ToJson([family |-> Families[pick[1]], method |-> Methods[pick[2]],
                                         word |-> [k \in 1 .. MaxWord |-> Words[pick[k + 2]]], h |-> Hash(pick)]))
=============================================================================
