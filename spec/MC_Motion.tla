------------------------------ MODULE MC_Motion ------------------------------
(* Bounded model of the prescribed motions (C05): clocks advance step by step,  *)
(* every combination of spacing, amplitude and period for the two outer         *)
(* sections of a wing.  Choices are kept as integers (indices, tenths).         *)
EXTENDS Motion
CONSTANTS Steps, Amps, Periods
QuickAmps == {0, 7, -4}
DeepAmps == {0, 7, -4, 300}
VARIABLES k, pick, straight
vars == <<k, pick, straight>>
Spacings == << <<"sine", "none">>, <<"uniform", "none">>, <<"custom", "skewed">>, <<"custom", "cubed">> >>
Codes == {<<a, p, s>> : a \in Amps, p \in Periods, s \in 1 .. 4}
Mot(q) == <<RRat(q[1], 10), RRat(q[2], 10), Spacings[q[3]][1], Spacings[q[3]][2]>>
M0 == <<0, 0, "sine", "none">>
ms == << [sweep |-> M0, pitch |-> M0, heave |-> M0],
         [sweep |-> Mot(pick[1]), pitch |-> Mot(pick[3]), heave |-> M0],
         [sweep |-> M0, pitch |-> Mot(pick[1]), heave |-> Mot(pick[2])] >>
bs == << <<0, 0, 0>>, <<RRat(1, 5), 1, RRat(1, 10)>>,
         IF straight THEN <<RRat(1, 5), 1, 1>> ELSE <<RHalf(1), 2, RRat(3, 10)>> >>
Dt == RRat(1, 8)
Init == k = 0 /\ straight \in BOOLEAN /\ pick \in Codes \X Codes \X Codes
Next == k < Steps /\ k' = k + 1 /\ UNCHANGED <<pick, straight>>
T == RPow(10, -9)
T7 == RPow(10, -7)
t == Time(k, Dt)
Path == TLCEval(SectionPath(bs, ms, t))
\* base configuration at time zero; rigid links; vertical sections follow their neighbour
Shape == LET path == Path IN
  /\ k = 0 => \A n \in 1 .. 3 : VClose(path[n], bs[n], T)
  /\ VClose(path[1], bs[1], T)
  /\ \A n \in 2 .. 3 : RClose(VNorm(VSub(path[n], path[n - 1])), VNorm(Offset(bs, n)), T)
  /\ Vertical(bs, 3) => VClose(VSub(path[3], path[2]), Offset(bs, 3), T)
\* sine and triangle stay within the amplitude, every periodic motion repeats
All == << ms[2].sweep, ms[3].heave, ms[2].pitch >>
Bounded == \A i \in 1 .. 3 : LET m == All[i] IN
  m[3] # "custom" => RLe(RAbs(RSub(Osc(m, 5, t), 5)), RAdd(RAbs(m[1]), T))
Repeats == \A i \in 1 .. 3 : LET m == All[i] IN ~Still(m) => RClose(Osc(m, 1, t), Osc(m, 1, RAdd(t, m[2])), T7)
Odd     == \A i \in 1 .. 3 : LET m == All[i] IN RClose(RSub(Osc(m, 3, t), 3), RSub(3, Osc(m, 3, RNeg(t))), T7)
Quarter == \A i \in 1 .. 3 : LET m == All[i] IN
  (~Still(m) /\ m[3] # "custom") =>
     RClose(Osc(m, 0, RMul(RRat(1, 4), m[2])), m[1], T) /\ RClose(Osc(m, 0, RMul(Half, m[2])), 0, T)
\* still sections keep their place relative to their inner neighbour
StillKeeps == LET path == Path IN
  (Still(ms[2].sweep)) => VClose(path[2], bs[2], T)
=============================================================================
