------------------------------- MODULE G_Output -------------------------------
(* Enumerates uses of the output functions (C17): which one, on which solution, *)
(* with which options.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Stride
VARIABLES pick, done
Ops     == <<"draw", "animate", "plot", "print", "surfaces">>
Methods == <<"horseshoe", "ring", "static", "moving", "only-final", "static-final", "short-beat", "gust">>
Fams    == <<"one", "camber", "tailed", "pair", "trio", "random", "fine", "six">>
Scalars == <<"none", "induced drag", "side force", "lift">>
Bits    == 16            \* wake, streams, save, testing
Lengths == <<1, 2, 3, 5, 8, 31>>
Dims == << Len(Ops), Len(Methods), Len(Fams), Len(Scalars), Bits, Len(Lengths) >>
Seed == atoi(IOEnv.SEED)
Hash(s) == FoldLeft(LAMBDA a, i : (a * 131 + i * 31 + 7) % 9973, Seed, s)
Steady(m) == m <= 2
Bit(b, k) == ((b - 1) \div (2 ^ k)) % 2 = 1
\* reports and plots have fewer options: only the first value of the ones that do not matter
Sensible(p) ==
  LET op == Ops[p[1]] IN
  /\ (Len(p) >= 2 /\ op \in {"animate", "plot"}) => ~Steady(p[2])
  /\ (Len(p) >= 4 /\ op \in {"plot", "print", "surfaces"}) => p[4] = 1
  /\ (Len(p) >= 5 /\ op \in {"print", "surfaces"}) => p[5] = 1
  /\ (Len(p) >= 5 /\ op \in {"animate", "plot"}) => ~Bit(p[5], 1)
  /\ (Len(p) >= 5 /\ op = "plot") => ~Bit(p[5], 0)
  /\ (Len(p) >= 6 /\ Steady(p[2])) => p[6] = 1
  /\ (Len(p) >= 6 /\ p[6] = 6) => Fams[p[3]] = "one"       \* long runs of the smallest
Many(p) == Ops[p[1]] \in {"draw", "animate"}
Init == pick = <<>> /\ done = FALSE
Choose == /\ Len(pick) < Len(Dims)
          /\ \E i \in 1 .. Dims[Len(pick) + 1] : pick' = Append(pick, i)
          /\ Sensible(pick')
          /\ Len(pick') = Len(Dims) => Hash(pick') % (IF Many(pick') THEN Stride ELSE 1 + Stride \div 8) = 0
          /\ done' = FALSE
Finish == Len(pick) = Len(Dims) /\ ~done /\ done' = TRUE /\ UNCHANGED pick
Next == Choose \/ Finish
Case == [op |-> Ops[pick[1]], method |-> Methods[pick[2]], fam |-> Fams[pick[3]], scalar |-> Scalars[pick[4]],
         wake |-> Bit(pick[5], 0), streams |-> Bit(pick[5], 1), save |-> Bit(pick[5], 2), testing |-> Bit(pick[5], 3),
         steps |-> Lengths[pick[6]]]
Emit == done => PrintT("@@G" \o ToJson(Case))
=============================================================================
