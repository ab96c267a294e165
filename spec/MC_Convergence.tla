---------------------------- MODULE MC_Convergence ----------------------------
(* Design model of C16: every table of loads over small grids, decided entry by  *)
(* entry as the study evaluates; the first parameter may have a gold standard.   *)
EXTENDS Convergence, Integers, Sequences, FiniteSets
CONSTANTS Grids, Levels, Crit
GridsDef == {<<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>, <<2, 1, 2, 1>>, <<1, 2, 1, 3>>}
GridsDeep == GridsDef \cup {<<3, 3>>, <<2, 4>>, <<4, 2>>, <<2, 2, 2, 1>>, <<2, 1, 2, 2>>}
VARIABLES sizes, gold, k, table, answer
vars == <<sizes, gold, k, table, answer>>
Finest(p, i) == p = gold /\ i = sizes[p]
At(j) == SettingAt(sizes, j)
Loads(t) == << table[CHOOSE j \in DOMAIN table : At(j) = t] >>
Init == sizes \in Grids /\ gold \in 0 .. 2 /\ k = 0 /\ table = <<>> /\ answer = <<>>
Evaluate == /\ answer = <<>> /\ k < Total(sizes)
            /\ \E v \in Levels : table' = Append(table, v)
            /\ k' = k + 1 /\ UNCHANGED <<sizes, gold, answer>>
Done(j) == Settled(At(j), sizes, Loads, Crit, Finest)
Judge == /\ k > 0 /\ answer = <<>>
         /\ IF Done(k) THEN answer' = Answer(At(k), sizes, Loads, Crit)
            ELSE k = Total(sizes) /\ answer' = <<-1>>
         /\ UNCHANGED <<sizes, gold, k, table>>
\* the study judges each setting before it evaluates the next
Next == (IF k > 0 /\ Done(k) THEN Judge ELSE (Evaluate \/ Judge))
Found == answer # <<>> /\ answer # <<-1>>
ReturnsEvaluated == Found => \E j \in 1 .. k : At(j) = answer
\* nothing returned was passed by: no earlier setting was settled
FirstSettled == answer # <<>> => \A j \in 1 .. k - 1 : ~Done(j)
\* refining any parameter of the answer to the setting it was compared with changes little,
\* or the parameter has a single value or is at its gold standard
Justified == Found => \A p \in DOMAIN sizes :
   LET t == At(k) IN
   \/ sizes[p] = 1 /\ answer[p] = 1
   \/ Finest(p, answer[p]) /\ answer[p] = t[p]
   \/ answer[p] = t[p] - 1 /\ RLt(Change(Loads(t), Loads(Coarser(t, p))), Crit)
Exhausted == answer = <<-1>> => k = Total(sizes) /\ \A j \in 1 .. k : ~Done(j)
OrderCovers == \A i, j \in 1 .. k : i < j => \E p \in DOMAIN sizes :
   At(i)[p] < At(j)[p] /\ \A q \in 1 .. p - 1 : At(i)[q] = At(j)[q]
=============================================================================
