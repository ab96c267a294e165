----------------------------- MODULE MC_Snapshots -----------------------------
(* A movement grows step by step while its holders write to objects of the base  *)
(* and of the snapshots (C06): every tree shows its own values plus its own        *)
(* writes, and nothing else.                                                       *)
EXTENDS Snapshots
CONSTANTS Steps, MaxWrites
VARIABLES shape, store, roots, writes
vars == <<shape, store, roots, writes>>
\* shape: number of sections of each wing; amp: what the motion adds per step
Shapes == { <<2>>, <<3, 2>>, <<2, 2>> }
Amp == [airplane |-> [ref |-> 2], wing |-> [le |-> 3], section |-> [le |-> 0, twist |-> 5]]
Airfoil(x) == [kind |-> "airfoil", fields |-> [name |-> x], parts |-> <<>>]
Put(st, o) == Append(st, o)
\* all wings use the one airfoil object 1, as users do
Base(sh) ==
  LET r == FoldLeft(LAMBDA a, n :
             LET s == FoldLeft(LAMBDA b, j : [st |-> Put(b.st, [kind |-> "section", parts |-> <<1>>,
                                                           fields |-> [chord |-> 10 - j, twist |-> j, le |-> j, hinge |-> 7]]),
                                              ids |-> Append(b.ids, Len(b.st) + 1)],
                               [st |-> a.st, ids |-> <<>>], [j \in 1 .. n |-> j])
             IN  [st |-> Put(s.st, [kind |-> "wing", parts |-> s.ids, fields |-> [name |-> Len(a.ids), sym |-> 1, le |-> 20]]),
                  ids |-> Append(a.ids, Len(s.st) + 1)],
           [st |-> << Airfoil(1) >>, ids |-> <<>>], sh)
  IN  Put(r.st, [kind |-> "airplane", parts |-> r.ids, fields |-> [name |-> 1, weight |-> 9, ref |-> 0]])
Init == /\ shape \in Shapes /\ store = Base(shape) /\ roots = << Len(Base(shape)) >> /\ writes = <<>>
\* roots[1] is the base, roots[k + 2] the snapshot of step k; all snapshots are taken before anyone writes
Grow == /\ Len(roots) <= Steps /\ writes = <<>>
        /\ LET e == Expand(store, roots[1], Len(roots) - 1, Amp) IN store' = e.store /\ roots' = Append(roots, e.id)
        /\ UNCHANGED <<shape, writes>>
Write == /\ Len(roots) > Steps /\ Len(writes) < MaxWrites
         /\ \E r \in DOMAIN roots : \E i \in Writable(store, roots[r]) : \E f \in DOMAIN store[i].fields :
              /\ store' = [store EXCEPT ![i].fields[f] = @ + 100]
              /\ writes' = Append(writes, [root |-> r, id |-> i, field |-> f])
         /\ UNCHANGED <<shape, roots>>
Next == Grow \/ Write

\* what tree r shows when only its own writes count: defined on shapes, not on identities
RECURSIVE Expected(_, _, _)
Expected(sh, i, k) ==
  LET b == Base(sh)[i] IN
  [kind |-> b.kind, fields |-> [f \in DOMAIN b.fields |-> 
     CASE f = "ref" -> b.fields[f] + 2 * k
       [] f = "twist" -> b.fields[f] + 5 * k
       [] f = "le" /\ b.kind = "wing" -> b.fields[f] + 3 * k
       [] OTHER -> b.fields[f]],
   parts |-> [p \in DOMAIN b.parts |-> Expected(sh, b.parts[p], k)]]
Untouched(r) == \A i \in DOMAIN writes : writes[i].root # r
StepOf(r) == IF r = 1 THEN 0 ELSE r - 2
OnlyOwnWrites == \A r \in DOMAIN roots : Untouched(r) => View(store, roots[r]) = Expected(shape, Len(Base(shape)), StepOf(r))
TreesSeparate == Separate(store, roots)
AirfoilsShared == \A r \in DOMAIN roots : 1 \in Reached(store, roots[r])
SameShape == \A r \in DOMAIN roots : Cardinality(Reached(store, roots[r])) = Len(Base(shape))
\* a list of all writable identities has no repetition exactly when the trees are separate and no object repeats in a tree
AllIds == FoldLeft(LAMBDA a, r : a \o SetToSeq(Writable(store, r)), <<>>, roots)
ListSaysIt == Distinct(AllIds) <=> Separate(store, roots)
CarriedOver == writes = <<>> => \A r \in DOMAIN roots : \A f \in DOMAIN store[roots[r]].fields :
                 Carried("airplane", f) => store[roots[r]].fields[f] = store[roots[1]].fields[f]
=============================================================================
