----------------------------- MODULE MC_Building -----------------------------
(* Building an airplane and its movement from a definition, object by object      *)
(* (C04).  A definition is a base with changes; each change is declared harmless   *)
(* or harmful, with the stage that must refuse it, independently of Validity.      *)
EXTENDS Validity
CONSTANTS MaxEdits
VARIABLES base, edits, built, outcome, refused
vars == <<base, edits, built, outcome, refused>>

YN == <<0, 1, 0>>
ZN == <<0, 0, 1>>
Canted == <<0, RCos(RRat(1, 5)), RSin(RRat(1, 5))>>
S(le, n) == [af |-> "naca0012", le |-> le, chord |-> 1, n |-> n, cst |-> "symmetric", ss |-> "cosine"]
\* a wing to the side, a fin, a wing with a canted outer section, and a wing in an oblique plane
Main == [n |-> YN, c |-> <<1, 0, 0>>, cs |-> "cosine", secs |-> << S(VZero, YN), S(<<0, 1, 0>>, YN), S(<<0, 2, RHalf(1)>>, YN) >>]
Fin  == [n |-> ZN, c |-> <<1, 0, 0>>, cs |-> "uniform", secs |-> << S(VZero, ZN), S(<<RHalf(1), 0, 1>>, ZN) >>]
Vee  == [Main EXCEPT !.secs[2].n = Canted, !.secs[3].n = Canted]
Slanted == LET q == RSqrt(RHalf(1)) n == <<0, q, q>> IN
           [n |-> n, c |-> <<1, 0, 0>>, cs |-> "cosine", secs |-> << S(VZero, n), S(n, n) >>]
NoMove == <<0, 0, "sine", "none">>
Rest(w) == [x |-> NoMove, y |-> NoMove, z |-> NoMove,
            secs |-> [k \in DOMAIN w.secs |-> [sweep |-> NoMove, pitch |-> NoMove, heave |-> NoMove]]]
BaseDef(b) ==
  CASE b = 1 -> [wings |-> << Main >>]
    [] b = 2 -> [wings |-> << Vee, Fin >>]
    [] b = 3 -> [wings |-> << Slanted >>]
    [] b = 4 -> LET ws == << Main, Fin >> IN
                [wings |-> ws, rq |-> [num_steps |-> 4],
                 m |-> [air |-> [x |-> NoMove, y |-> NoMove, z |-> NoMove], v |-> NoMove, wings |-> [i \in DOMAIN ws |-> Rest(ws[i])]]]

\* changes: <<kind, wing, section>>
SecKinds   == {"chord-zero", "chord-short", "chord-negative", "cst", "cst-other", "ss", "ss-other", "name", "name-other", "name-drawn",
               "normal-out", "normal-canted", "le"}
WingKinds  == {"one-section", "cs", "cs-other", "chordwise-tilt", "chordwise-slight", "chordwise-rounded", "normal-flip"}
MoveKinds  == {"m-spacing", "m-sweep", "m-pitch", "m-custom", "m-custom-fn"}
PlanKinds  == {"p-cycles", "p-chords", "a-spacing", "a-plunge", "v-custom"}
Kinds(b)   == {<<k, w, s>> : k \in SecKinds, w \in DOMAIN BaseDef(b).wings, s \in 1 .. 3}
              \cup {<<k, w, 0>> : k \in WingKinds, w \in DOMAIN BaseDef(b).wings}
              \cup {<<"no-wings", 0, 0>>}
              \cup (IF "m" \in DOMAIN BaseDef(b) THEN {<<k, w, s>> : k \in MoveKinds, w \in DOMAIN BaseDef(b).wings, s \in 1 .. 3}
                                                      \cup {<<k, 0, 0>> : k \in PlanKinds} ELSE {})
Applies(d, e) == e[2] = 0 \/ (e[2] \in DOMAIN d.wings /\ (e[3] = 0 \/ e[3] \in DOMAIN d.wings[e[2]].secs))
Odd == <<1, RRat(1, 10), "triangle", "none">>
Change(d, e) ==
  LET k == e[1] w == e[2] s == e[3] IN
  CASE k = "chord-zero"     -> [d EXCEPT !.wings[w].secs[s].chord = 0]
    [] k = "chord-short"    -> [d EXCEPT !.wings[w].secs[s].chord = RRat(1, 1000)]
    [] k = "chord-negative" -> [d EXCEPT !.wings[w].secs[s].chord = RNeg(1)]
    [] k = "cst"            -> [d EXCEPT !.wings[w].secs[s].cst = "Symmetric"]
    [] k = "cst-other"      -> [d EXCEPT !.wings[w].secs[s].cst = "asymmetric"]
    [] k = "ss"             -> [d EXCEPT !.wings[w].secs[s].ss = "sine"]
    [] k = "ss-other"       -> [d EXCEPT !.wings[w].secs[s].ss = "uniform"]
    [] k = "name"           -> [d EXCEPT !.wings[w].secs[s].af = "unheard-of"]
    [] k = "name-other"     -> [d EXCEPT !.wings[w].secs[s].af = "e63"]
    [] k = "name-drawn"     -> [d EXCEPT !.wings[w].secs[s] = [drawn |-> TRUE] @@ @]
    [] k = "normal-out"     -> [d EXCEPT !.wings[w].secs[s].n = <<RRat(3, 5), RMul(RRat(4, 5), @[2]), RMul(RRat(4, 5), @[3])>>]
    [] k = "normal-canted"  -> [d EXCEPT !.wings[w].secs[s].n = <<0, RSub(RMul(RRat(3, 5), @[2]), RMul(RRat(4, 5), @[3])),
                                                                   RAdd(RMul(RRat(4, 5), @[2]), RMul(RRat(3, 5), @[3]))>>]
    [] k = "le"             -> [d EXCEPT !.wings[w].secs[s].le = VAdd(@, <<RRat(1, 7), 0, 0>>)]
    [] k = "one-section"    -> [d EXCEPT !.wings[w].secs = << @[1] >>]
    [] k = "cs"             -> [d EXCEPT !.wings[w].cs = "linear"]
    [] k = "cs-other"       -> [d EXCEPT !.wings[w].cs = IF @ = "cosine" THEN "uniform" ELSE "cosine"]
    [] k = "chordwise-tilt" -> [d EXCEPT !.wings[w].c = <<RRat(4, 5), RMul(RRat(3, 5), d.wings[w].n[2]), RMul(RRat(3, 5), d.wings[w].n[3])>>]
    [] k = "chordwise-slight"  -> [d EXCEPT !.wings[w].c = VAdd(@, VScale(RPow(10, -4), d.wings[w].n))]
    [] k = "chordwise-rounded" -> [d EXCEPT !.wings[w].c = VAdd(@, VScale(RPow(10, -14), d.wings[w].n))]
    [] k = "normal-flip"    -> [d EXCEPT !.wings[w].n = VScale(RNeg(1), @)]
    [] k = "no-wings"       -> [d EXCEPT !.wings = <<>>]
    [] k = "m-spacing"      -> [d EXCEPT !.m.wings[w].secs[s].pitch = Odd]
    [] k = "m-sweep"        -> [d EXCEPT !.m.wings[w].secs[s].sweep = <<5, RRat(1, 10), "uniform", "none">>]
    [] k = "m-pitch"        -> [d EXCEPT !.m.wings[w].secs[s].pitch = <<5, RRat(1, 10), "sine", "none">>]
    [] k = "m-custom"       -> [d EXCEPT !.m.wings[w].secs[s].pitch = <<5, RRat(1, 10), "custom", "none">>]
    [] k = "m-custom-fn"    -> [d EXCEPT !.m.wings[w].secs[s].pitch = <<5, RRat(1, 10), "custom", "skewed">>]
    [] k = "p-cycles"       -> [d EXCEPT !.rq = [num_cycles |-> 2]]
    [] k = "p-chords"       -> [d EXCEPT !.rq = [num_chords |-> 2]]
    [] k = "a-spacing"      -> [d EXCEPT !.m.air.z = Odd]
    [] k = "a-plunge"       -> [d EXCEPT !.m.air.x = <<1, RRat(1, 10), "uniform", "none">>]
    [] k = "v-custom"       -> [d EXCEPT !.m.v = <<1, RRat(1, 10), "custom", "skewed">>]
\* "ok", or the stage that must refuse the change, when it is the only one
Declared(b, e) ==
  LET k == e[1] w == e[2] s == e[3] IN
  CASE k \in {"chord-zero", "chord-negative", "cst", "ss", "name"} -> <<"section", w, s>>
    [] k \in {"normal-out", "one-section", "cs", "chordwise-tilt", "chordwise-slight", "normal-flip"} -> <<"wing", w, 0>>
    [] k \in {"normal-canted", "le"} /\ s = 1 -> <<"wing", w, 0>>
    [] k = "no-wings" -> <<"airplane", 0, 0>>
    [] k \in {"m-spacing", "m-custom", "a-spacing", "v-custom", "p-cycles"} -> <<"movement", 0, 0>>
    [] k = "m-sweep" /\ s = 1 -> <<"movement", 0, 0>>
    [] OTHER -> <<"ok", 0, 0>>

Definition == FoldLeft(LAMBDA d, e : Change(d, e), BaseDef(base), edits)
\* combinations: at most one change of the same wing, so that changes cannot repair one another
Independent(e) == \A i \in DOMAIN edits : edits[i][2] # e[2] /\ edits[i][1] # "no-wings" /\ e[1] # "no-wings"
Init == base \in 1 .. 4 /\ edits = <<>> /\ built = <<>> /\ outcome = "editing" /\ refused = <<>>
Edit == /\ outcome = "editing" /\ Len(edits) < MaxEdits
        /\ \E e \in Kinds(base) : Applies(Definition, e) /\ Independent(e) /\ edits' = Append(edits, e)
        /\ UNCHANGED <<base, built, outcome, refused>>
Submit == outcome = "editing" /\ outcome' = "building" /\ UNCHANGED <<base, edits, built, refused>>
Make == /\ outcome = "building" /\ Len(built) < Len(Stages(Definition))
        /\ LET st == Stages(Definition)[Len(built) + 1] IN
           IF st[2] THEN built' = Append(built, st[1]) /\ UNCHANGED <<outcome, refused>>
           ELSE outcome' = "refused" /\ refused' = st[1] /\ UNCHANGED built
        /\ UNCHANGED <<base, edits>>
Finish == /\ outcome = "building" /\ Len(built) = Len(Stages(Definition))
          /\ outcome' = "finished" /\ UNCHANGED <<base, edits, built, refused>>
Next == Edit \/ Submit \/ Make \/ Finish
Refused == outcome = "refused"

\* the stage of a definition at which a declared fault shows, in building order
Place(st) == CHOOSE i \in DOMAIN Stages(Definition) : Stages(Definition)[i][1] = st
Faults == {i \in DOMAIN edits : Declared(base, edits[i])[1] # "ok"}
FaultStages == {Place(Declared(base, edits[i])) : i \in Faults}
HasPlan == "m" \in DOMAIN Definition
\* a plan of cycles is at fault only while nothing moves; a plan of chords only when something does
Interacts == HasPlan /\ \E i \in DOMAIN edits : edits[i][1] \in {"p-cycles", "p-chords"} /\ Len(edits) > 1

Declarations == ~Interacts => (WellFormed(Definition) <=> Faults = {})
RightStage == (Refused /\ ~Interacts) => FaultStages # {} /\ refused = Stages(Definition)[CHOOSE p \in FaultStages : \A q \in FaultStages : p <= q][1]
FirstFaultIsIt == Refused => ~WellFormed(Definition) /\ refused = FirstFault(Definition)
OnlyGood == \A i \in DOMAIN built : Stages(Definition)[i][1] = built[i] /\ Stages(Definition)[i][2]
FinishedIffWellFormed == outcome = "finished" => WellFormed(Definition) /\ Len(built) = Len(Stages(Definition))
NothingAfterRefusal == Refused => Len(built) < Len(Stages(Definition)) /\ \A i \in DOMAIN built : built[i] # refused
\* plan and motions together
PlanRules == (HasPlan /\ outcome = "editing") =>
  LET moves == ~REq(MaxPeriodOf(PeriodsOf(Definition)), 0) IN
  PlanLegal(Definition.rq, PeriodsOf(Definition)) <=> /\ "num_cycles" \in DOMAIN Definition.rq => moves
                                                      /\ "num_chords" \in DOMAIN Definition.rq => ~moves
=============================================================================
