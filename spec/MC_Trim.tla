-------------------------------- MODULE MC_Trim --------------------------------
(* Design model of C15: an optimizer that may propose any state within the        *)
(* bounds, in either stage, and residuals that may be anything; the caller sees    *)
(* only the answer.  `res` is decided state by state, as the search meets them.    *)
EXTENDS Trim, Integers, Sequences, FiniteSets
CONSTANTS Side, Budget
VARIABLES st, start, box, res, hist, answer
vars == <<st, start, box, res, hist, answer>>
X == (0 .. Side) \X (0 .. Side)
Boxes == {<<<<a, b>>, <<c, d>>>> : a \in 0 .. Side, b \in 0 .. Side, c \in 0 .. Side, d \in 0 .. Side}
Cut == 2
Within(x, b) == \A i \in 1 .. 2 : b[i][1] <= x[i] /\ x[i] <= b[i][2]
Init == /\ st = Fresh /\ start \in X /\ box \in {b \in Boxes : b[1][1] <= b[1][2] /\ b[2][1] <= b[2][2]}
        /\ res = [x \in X |-> -1] /\ hist = <<>> /\ answer = <<"open">>
Begin == /\ MayStart(st) /\ st' = Start(st, Within(start, box))
         /\ answer' = IF Within(start, box) THEN answer ELSE <<"rejected">>
         /\ UNCHANGED <<start, box, res, hist>>
Try(x) == /\ MayEvaluate(st) /\ st.evals < Budget /\ answer = <<"open">>
          /\ (st.evals = 0 => x = start)
          /\ \E r \in {1, 2} : /\ (res[x] # -1 => r = res[x])
                               /\ res' = [res EXCEPT ![x] = r]
                               /\ st' = Evaluate(st, x, r < Cut)
                               /\ hist' = Append(hist, <<x, r>>)
          /\ UNCHANGED <<start, box, answer>>
Turn == MayGoGlobal(st) /\ st.evals > 0 /\ st' = GoGlobal(st) /\ UNCHANGED <<start, box, res, hist, answer>>
Finish == /\ MayEnd(st) /\ answer = <<"open">>
          /\ answer' = IF st.accepted # <<>> THEN <<"state", st.accepted[1]>> ELSE <<"nothing">>
          /\ UNCHANGED <<st, start, box, res, hist>>
Next == Begin \/ (\E x \in X : Within(x, box) /\ Try(x)) \/ Turn \/ Finish
Answered == answer[1] \in {"state", "nothing"}
OnlyTrimmed == answer[1] = "state" => /\ res[answer[2]] # -1 /\ res[answer[2]] < Cut /\ Within(answer[2], box)
FirstOne    == answer[1] = "state" => \A i \in 1 .. Len(hist) : (hist[i][2] < Cut) = (i = Len(hist))
NothingOnlyIfNone == answer[1] = "nothing" => \A i \in 1 .. Len(hist) : hist[i][2] >= Cut
GlobalAfterLocal == (answer[1] = "nothing") => st.phase = "global"
RejectedUntouched == answer[1] = "rejected" => hist = <<>> /\ ~Within(start, box)
NoneAfter == [][hist' # hist => answer = <<"open">> /\ st.accepted = <<>>]_vars
=============================================================================
