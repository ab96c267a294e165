------------------------------- MODULE Snapshots -------------------------------
(***************************************************************************)
(* How a movement expands its bases into snapshots (property C06), as a     *)
(* store of objects.  An object has a kind, fields and parts; a motion      *)
(* prescribes some fields of some kinds; a snapshot is a copy of the base   *)
(* in which the prescribed fields have their values at that step and        *)
(* everything else is carried over.  Objects of the kinds in Shared may be  *)
(* parts of several trees, because nothing writes to them.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Shared == {"airfoil"}
Prescribed == [airplane |-> {"ref"}, wing |-> {"le"}, section |-> {"le", "twist"}, airfoil |-> {}]
Carried(kind, f) == f \notin Prescribed[kind]
\* objects reached from i, and those a holder may write to
RECURSIVE Reached(_, _)
Reached(store, i) == {i} \cup UNION {Reached(store, store[i].parts[k]) : k \in DOMAIN store[i].parts}
Writable(store, i) == {j \in Reached(store, i) : store[j].kind \notin Shared}
\* trees own what can be written in them
Separate(store, roots) ==
  \A a, b \in DOMAIN roots : a # b => Writable(store, roots[a]) \cap Writable(store, roots[b]) = {}
\* the same for plain lists of identities of writable objects, one list for each tree
Distinct(ids) == Len(ids) = Cardinality({ids[i] : i \in DOMAIN ids})
\* what an observer of an object sees
RECURSIVE View(_, _)
View(store, i) == [kind |-> store[i].kind, fields |-> store[i].fields, parts |-> [k \in DOMAIN store[i].parts |-> View(store, store[i].parts[k])]]

(***************************************************************************)
(* Expansion of base i at step k; a prescribed field of kind c moves by     *)
(* k times amp[c][f].  Returns the extended store and the new object.       *)
(***************************************************************************)
RECURSIVE Expand(_, _, _, _)
Expand(store, i, k, amp) ==
  LET o == store[i] IN
  IF o.kind \in Shared THEN [store |-> store, id |-> i]
  ELSE LET r == FoldLeft(LAMBDA a, p : LET q == Expand(a.store, p, k, amp) IN [store |-> q.store, ids |-> Append(a.ids, q.id)],
                         [store |-> store, ids |-> <<>>], o.parts)
           fresh == [o EXCEPT !.parts = r.ids, !.fields = [f \in DOMAIN o.fields |->
                       IF Carried(o.kind, f) THEN o.fields[f] ELSE o.fields[f] + k * amp[o.kind][f]]]
       IN  [store |-> Append(r.store, fresh), id |-> Len(r.store) + 1]
=============================================================================
