------------------------------- MODULE MC_Output -------------------------------
(* Design model of C17: drawing and animating as a process over a stage that is *)
(* cleared between steps.  Invariant: when it ends, every page and every picture *)
(* shows its own step, coloured exactly where there are results.                 *)
EXTENDS Output, FiniteSets
CONSTANTS MaxSteps, MaxLines, ClearBetween
VARIABLES o, n, first, lines, stage, pc, put
vars == <<o, n, first, lines, stage, pc, put>>
Options == [op : {"draw", "animate"}, scalar : {"none", "lift"}, wake : BOOLEAN, streams : BOOLEAN, save : BOOLEAN]
Init == /\ o \in Options /\ n \in 1 .. MaxSteps /\ first \in 0 .. n - 1 /\ lines \in 0 .. MaxLines
        /\ (o.op = "animate" => ~o.streams)
        /\ stage = Stage0 /\ pc = "put" /\ put = {}
Step == StepOfPage(o, n, Len(stage.pages))
Colours == Which(o.scalar) # 0 /\ Step >= first
\* the parts of a page go on in any order
Parts == {IF Colours THEN "coloured" ELSE "plain"} \cup (IF Colours THEN {"max", "min"} ELSE {})
         \cup (IF o.wake /\ Step > 0 THEN {"wake"} ELSE {}) \cup (IF o.op = "animate" /\ o.save THEN {"speed"} ELSE {})
PutPart == /\ pc = "put"
           /\ \E x \in Parts \ put : stage' = Put(stage, x) /\ put' = put \cup {x}
           /\ UNCHANGED <<o, n, first, lines, pc>>
PutLine == /\ pc = "put" /\ o.streams /\ Count(stage.canvas, "line") < lines
           /\ stage' = Put(stage, "line") /\ UNCHANGED <<o, n, first, lines, pc, put>>
Full == put = Parts /\ (o.streams => Count(stage.canvas, "line") = lines)
Done == pc = "put" /\ Full /\ pc' = "shoot" /\ UNCHANGED <<o, n, first, lines, stage, put>>
Shot == pc = "shoot" /\ pc' = "turn" /\ stage' = (IF o.save THEN Shoot(stage) ELSE stage) /\ UNCHANGED <<o, n, first, lines, put>>
Turn == /\ pc = "turn"
        /\ IF Len(stage.pages) + 1 = NumPages(o, n) THEN stage' = Close(stage) /\ pc' = "end"
           ELSE stage' = (IF ClearBetween THEN Leave(stage) ELSE [Leave(stage) EXCEPT !.canvas = stage.canvas]) /\ pc' = "put"
        /\ put' = {} /\ UNCHANGED <<o, n, first, lines>>
Next == PutPart \/ PutLine \/ Done \/ Shot \/ Turn
WantedOn(page) == LET k == StepOfPage(o, n, page) IN Wanted(o, TRUE, k, k >= first, lines)
ShowsEverything ==
  pc = "end" =>
    /\ Len(stage.pages) = NumPages(o, n) /\ ~stage.open
    /\ \A i \in DOMAIN stage.pages : PageShows(stage.pages[i], WantedOn(i - 1))
    /\ Len(stage.shots) = IF o.save THEN NumPages(o, n) ELSE 0
    /\ \A i \in DOMAIN stage.shots : stage.shots[i].page = i - 1 /\ PageShows(stage.shots[i].canvas, WantedOn(i - 1))
NeverOdd == \A i \in DOMAIN stage.pages : Count(stage.pages[i], "odd") = 0
=============================================================================
