------------------------------ MODULE MC_History -------------------------------
(* Design model of C14: runs as the sequence of phases the solvers go through,   *)
(* over storage that survives a run.  Two problems share one geometry, a third   *)
(* has its own; runs may be interrupted after any phase, and problems edited      *)
(* between runs.  The invariant: when                                            *)
(* a run completes, every holder shows exactly the products of its last          *)
(* completed run, as if that had been the only one.                              *)
EXTENDS History
CONSTANTS MaxRuns, MaxEdits, ResetAtStart
VARIABLES pc, cur, store, st, runs, eds, key
vars == <<pc, cur, store, st, runs, eds, key>>
Problems == {"A", "B", "C"}
Solvers  == {"A1", "A2", "B1", "B2", "C1", "C2"}
Of(s)    == CASE s \in {"A1", "A2"} -> "A" [] s \in {"B1", "B2"} -> "B" [] s \in {"C1", "C2"} -> "C"
PlaceOf(p) == IF p = "C" THEN "gC" ELSE "gAB"
\* stored products, each a sequence of the keys of the runs that contributed
Parts    == {"strengths", "seeds", "wake"}
Empty    == [geometry |-> [g \in {"gAB", "gC"} |-> <<>>], problem |-> [p \in Problems |-> <<>>],
             solver |-> [s \in Solvers |-> [q \in Parts |-> <<>>]]]
Phases == <<"reset", "vortices", "solve", "loads", "shed", "final", "stream">>
Init == pc = 0 /\ cur = "A1" /\ store = Empty /\ st = NoHolders /\ runs = 0 /\ eds = [p \in Problems |-> 0] /\ key = "none"
Begin == /\ pc = 0 /\ runs < MaxRuns
         /\ \E s \in Solvers : cur' = s /\ st' = Interrupt(st, PlaceOf(Of(s)), "p" \o Of(s), s)
         /\ key' = Key(cur', eds[Of(cur')], "run")
         /\ pc' = 1 /\ runs' = runs + 1 /\ UNCHANGED <<store, eds>>
\* the user changes a problem between runs: what it shows stays that of the run before
Edit  == /\ pc = 0 /\ \E p \in Problems : eds[p] < MaxEdits /\ eds' = [eds EXCEPT ![p] = @ + 1]
         /\ UNCHANGED <<pc, cur, store, st, runs, key>>
S == cur
G == PlaceOf(Of(cur))
Effect(ph) ==
  CASE ph = "reset" /\ ResetAtStart -> [store EXCEPT !.solver[S] = [q \in Parts |-> <<>>], !.problem[Of(S)] = <<>>]
    [] ph = "vortices" -> [store EXCEPT !.geometry[G] = <<key>>]
    [] ph = "solve"    -> [store EXCEPT !.solver[S].strengths = Append(@, key)]
    [] ph = "shed"     -> [store EXCEPT !.solver[S].wake = Append(@, key)]
    [] ph = "final"    -> [store EXCEPT !.problem[Of(S)] = Append(@, key)]
    [] ph = "stream"   -> [store EXCEPT !.solver[S].seeds = Append(@, key)]
    [] OTHER           -> store
Step == /\ pc > 0 /\ store' = Effect(Phases[pc]) /\ UNCHANGED <<cur, runs, eds, key>>
        /\ IF pc = Len(Phases) THEN pc' = 0 /\ st' = Complete(st, G, "p" \o Of(S), S, key)
           ELSE pc' = pc + 1 /\ UNCHANGED st
Break == pc > 1 /\ pc' = 0 /\ UNCHANGED <<cur, store, st, runs, eds, key>>
Next == Begin \/ Edit \/ Step \/ Break
\* what holder h shows must be the products of one run, the one st names
Faithful ==
  /\ \A g \in {"gAB", "gC"} : g \in DOMAIN st => store.geometry[g] = <<st[g]>>
  /\ \A p \in Problems : "p" \o p \in DOMAIN st => store.problem[p] = <<st["p" \o p]>>
  /\ \A s \in Solvers : s \in DOMAIN st => \A q \in Parts : store.solver[s][q] = <<st[s]>>
\* separate problems do not disturb each other
Separate == [][ \A g \in {"gAB", "gC"} : (pc > 0 /\ G # g) => store'.geometry[g] = store.geometry[g] ]_vars
=============================================================================
