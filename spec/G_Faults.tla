------------------------------- MODULE G_Faults -------------------------------
(* Enumerates definitions with up to MaxFaults changes of single fields at every  *)
(* position (C04).  Whether a change is a fault is not decided here: the trace    *)
(* specification evaluates Validity on the resulting definition.                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS MaxFaults, Stride
VARIABLES base, edits, done
Bases == {"plain", "two-wings", "canted", "oblique", "still", "moving"}
SecEdits == {"chord-zero", "chord-negative", "chord-tiny", "cst-unknown", "cst-capital", "cst-empty", "cst-asymmetric", "ss-unknown",
             "ss-sine", "ss-cosine", "name-unknown", "name-short", "name-letters", "name-empty", "name-library", "name-drawn", "normal-flipped",
             "normal-tilted", "normal-canted", "normal-slight", "normal-rounded", "le-x", "le-y", "le-z", "le-x-tiny", "twist", "deflection", "one-panel"}
WingEdits == {"one-section", "no-section", "cs-unknown", "cs-sine", "cs-capital", "cs-cosine", "chordwise-tilted", "chordwise-skew", "chordwise-slight",
              "chordwise-rounded", "yawed", "pitched",
              "normal-flipped", "normal-x", "symmetric", "one-row"}
SecMoves == {"sweep-unknown", "pitch-unknown", "heave-unknown", "sweep-custom-missing", "pitch-custom-missing",
             "heave-custom-missing", "sweep-custom", "pitch-custom", "heave-custom", "sweep", "pitch", "heave", "sweep-period",
             "heave-period", "sweep-amplitude", "heave-amplitude", "sweep-negative", "heave-empty"}
WingMoves == {"x-unknown", "y-unknown", "z-unknown", "x-custom", "y-custom", "z-cosine", "x", "z"}
AirMoves == {"x-unknown", "y-unknown", "z-unknown", "y-custom", "x", "v-unknown", "v-custom", "v", "v-empty"}
Plans == {"steps-cycles", "steps-chords", "cycles", "chords", "cycles-chords", "steps"}
E(k, w, s) == [k |-> k, w |-> w, s |-> s]
HasMotion(b) == b \in {"still", "moving"}
Wings(b) == IF b \in {"two-wings", "still", "moving"} THEN 1 .. 2 ELSE {1}
Edits(b) == {E("sec:" \o k, w, s) : k \in SecEdits, w \in Wings(b), s \in 1 .. 3}
            \cup {E("wing:" \o k, w, 0) : k \in WingEdits, w \in Wings(b)}
            \cup {E("airplane:no-wings", 0, 0)}
            \cup (IF HasMotion(b) THEN {E("secmove:" \o k, w, s) : k \in SecMoves, w \in Wings(b), s \in 1 .. 3}
                                       \cup {E("wingmove:" \o k, w, 0) : k \in WingMoves, w \in Wings(b)}
                                       \cup {E("airmove:" \o k, 0, 0) : k \in AirMoves} \cup {E("plan:" \o k, 0, 0) : k \in Plans}
                  ELSE {})
Table == [b \in Bases |-> TLCEval(SetToSeq(Edits(b)))]
Seed == atoi(IOEnv.SEED)
Init == base \in Bases /\ edits = <<>> /\ done = FALSE
\* single changes are complete; combinations are thinned, differently for every seed
Keep(s) == IF Len(s) <= 1 THEN TRUE
           ELSE FoldLeft(LAMBDA a, i : (a * 131 + i * 31 + 7) % 9973, Seed, s) % Stride = 0
Add == /\ ~done /\ Len(edits) < MaxFaults
       /\ \E i \in DOMAIN Table[base] : Keep(Append(edits, i)) /\ edits' = Append(edits, i)
       /\ UNCHANGED <<base, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<base, edits>>
Next == Add \/ Finish
Emit == done => PrintT("@@G" \o ToJson([base |-> base, edits |-> [i \in DOMAIN edits |-> Table[base][edits[i]]]]))
=============================================================================
