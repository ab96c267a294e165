----------------------------- MODULE MC_BiotSavart -----------------------------
(* The law of BiotSavart has the properties C08 promises: checked on every     *)
(* position of a point and of a segment on an integer lattice, with the point  *)
(* walking the lattice, the vortex changing strength and growing older.        *)
EXTENDS BiotSavart
CONSTANTS N        \* lattice 0..N in each direction
Strengths == {-2, 0, 3}
Ages == {0, 1, 10}
VARIABLES p, b, g, age
vars == <<p, b, g, age>>
Lat == (0 .. N) \X (0 .. N) \X (0 .. N)
A == <<1, 1, 0>>
Nu == RRat(1, 100)
Init == p \in {<<0, 0, 0>>} /\ b \in (Lat \ {A}) /\ g = 1 /\ age = 0
Walk == \E i \in 1 .. 3 : p[i] < N /\ p' = [p EXCEPT ![i] = @ + 1] /\ UNCHANGED <<b, g, age>>
Restrength == \E s \in Strengths : g' = s /\ UNCHANGED <<p, b, age>>
Grow == \E t \in Ages : t > age /\ age' = t /\ UNCHANGED <<p, b, g>>
Next == Walk \/ Restrength \/ Grow

T == RPow(10, -12)
C == Core2(g, age, Nu)
v == SegVel(p, A, b, g, C)
Finite == VFinite(v)
OnAxisZero == OnAxis(p, A, b) => v = VZero
OffAxisNonZero == (~OnAxis(p, A, b) /\ g # 0) => ~RClose(VNorm(v), 0, RPow(10, -6))
Reversal == VClose(v, VNeg(SegVel(p, b, A, g, C)), T)
Perpendicular == /\ RClose(VDot(v, VSub(b, A)), 0, T) /\ RClose(VDot(v, VSub(p, A)), 0, T)
Linear == age = 0 => VClose(v, VScale(g, SegVel(p, A, b, 1, 0)), T)
Additive == LET m == VMid(A, b) IN
            (age = 0 /\ ~OnAxis(p, A, b)) => VClose(v, VAdd(SegVel(p, A, m, g, 0), SegVel(p, m, b, g, 0)), T)
CoreShrinks == RLe(VNorm(v), RAdd(VNorm(SegVel(p, A, b, g, 0)), T))
CoreGrows == \A t \in Ages : t > age => RLe(VNorm(SegVel(p, A, b, g, Core2(g, t, Nu))), RAdd(VNorm(v), T))
Translate == LET d == <<RRat(1, 3), -2, 5>> IN
             VClose(v, SegVel(VAdd(p, d), VAdd(A, d), VAdd(b, d), g, C), RPow(10, -9))
\* a ring made of two back-to-back legs induces nothing
Degenerate == VClose(SegsVel(p, << <<A, b>>, <<b, A>> >>, g, C), VZero, T)
\* two adjacent equal rings induce what the enclosing ring does (shared leg cancels)
Square(x0, x1) == [fl |-> <<x0, 0, 0>>, fr |-> <<x0, 1, 0>>, bl |-> <<x1, 0, 0>>, br |-> <<x1, 1, 0>>]
Stokes == LET big == RingVel(p, Square(0, 2), g, 0)
              two == VAdd(RingVel(p, Square(0, 1), g, 0), RingVel(p, Square(1, 2), g, 0))
          IN (age = 0 /\ p[3] > 0) => VClose(big, two, T)
\* a square ring of side 1: speed 2 sqrt(2) g / pi at its centre, along +z for positive strength
\* (front right -> front left -> back left -> back right is counterclockwise seen from +z)
RingCentre == LET u == RingVel(<<Half, Half, 0>>, Square(0, 1), g, 0)
              IN RClose(RAbs(u[3]), RDiv(RMul(RMul(2, RSqrt(2)), RAbs(g)), Pi), T) /\ RClose(u[1], 0, T) /\ RClose(u[2], 0, T)
ASSUME RingSign == RLt(0, RingVel(<<Half, Half, 0>>, Square(0, 1), 1, 0)[3])
=============================================================================
