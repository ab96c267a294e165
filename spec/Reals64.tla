------------------------------- MODULE Reals64 -------------------------------
(***************************************************************************)
(* Real arithmetic for the specifications.                                  *)
(*                                                                          *)
(* The definitions below give the meaning of each operator over the real    *)
(* numbers.  TLC has no reals, so every operator is evaluated by the module *)
(* override java/Reals64.java on IEEE-754 binary64 values; a real is then   *)
(* an ordinary integer or the pair <<hi, lo>> of the two halves of the      *)
(* binary64 word (which is how the recorders log floating point values).    *)
(* Tolerances in the trace specifications absorb the rounding.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Real == CHOOSE R : TRUE      \* abstract carrier; never enumerated

RCanon(a) == a                       \* canonical representation
RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == CHOOSE x \in Real : b * x = a
RNeg(a)    == 0 - a
RAbs(a)    == IF a < 0 THEN 0 - a ELSE a
RSqrt(a)   == CHOOSE x \in Real : x >= 0 /\ x * x = a
RSin(a)    == CHOOSE x \in Real : TRUE
RCos(a)    == CHOOSE x \in Real : TRUE
RAtan(a)   == CHOOSE x \in Real : TRUE
RAtan2(a, b) == CHOOSE x \in Real : TRUE
RAcos(a)   == CHOOSE x \in Real : TRUE
RPow(a, b) == CHOOSE x \in Real : TRUE
RLt(a, b)  == a < b
RLe(a, b)  == a <= b
REq(a, b)  == a = b
RMax(a, b) == IF a < b THEN b ELSE a
RMin(a, b) == IF a < b THEN a ELSE b
RFinite(a) == TRUE
RIsNaN(a)  == FALSE
RFloor(a)  == CHOOSE n \in Int : n <= a /\ a < n + 1
RCeil(a)   == CHOOSE n \in Int : a <= n /\ n - 1 < a
RRoundHalfEven(a) == CHOOSE n \in Int : TRUE   \* nearest integer, ties to even
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN 0 ELSE RAdd(RSum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
RShow(a) == "real"

(***************************************************************************)
(* Three-vectors <<x, y, z>>                                                *)
(***************************************************************************)
VAdd(a, b)   == << RAdd(a[1], b[1]), RAdd(a[2], b[2]), RAdd(a[3], b[3]) >>
VSub(a, b)   == << RSub(a[1], b[1]), RSub(a[2], b[2]), RSub(a[3], b[3]) >>
VScale(k, a) == << RMul(k, a[1]), RMul(k, a[2]), RMul(k, a[3]) >>
VDot(a, b)   == RAdd(RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RMul(a[3], b[3]))
VCross(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
VNorm(a)     == RSqrt(VDot(a, a))
VClose(a, b, tol) == \A i \in 1 .. 3 : RClose(a[i], b[i], tol)
RECURSIVE VSum(_)
VSum(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE VAdd(VSum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

(***************************************************************************)
(* Derived operators (no override: evaluated from their definitions)        *)
(***************************************************************************)
RRat(n, d)  == RDiv(n, d)
Half        == RDiv(1, 2)
RHalf(a)    == RMul(Half, a)
RSq(a)      == RMul(a, a)
RLerp(a, b, t) == RAdd(RMul(RSub(1, t), a), RMul(t, b))
VZero       == << 0, 0, 0 >>
VNeg(a)     == VScale(-1, a)
VLerp(a, b, t) == VAdd(VScale(RSub(1, t), a), VScale(t, b))
VMid(a, b)  == VScale(Half, VAdd(a, b))
VUnit(a)    == VScale(RDiv(1, VNorm(a)), a)
VFinite(a)  == \A i \in 1 .. 3 : RFinite(a[i])
\* matrices are tuples of rows
MVec(m, v)  == << VDot(m[1], v), VDot(m[2], v), VDot(m[3], v) >>
MCol(m, j)  == << m[1][j], m[2][j], m[3][j] >>
MT(m)       == << MCol(m, 1), MCol(m, 2), MCol(m, 3) >>
MMul(a, b)  == [i \in 1 .. 3 |-> << VDot(a[i], MCol(b, 1)), VDot(a[i], MCol(b, 2)), VDot(a[i], MCol(b, 3)) >>]
MClose(a, b, tol) == \A i \in 1 .. 3 : VClose(a[i], b[i], tol)
Pi == RMul(4, RAtan(1))
DegToRad(a) == RMul(a, RDiv(Pi, 180))
\* relative-plus-absolute comparison
RNear(a, b, rel, abs) == RClose(a, b, RAdd(abs, RMul(rel, RMax(RAbs(a), RAbs(b)))))
VNear(a, b, rel, abs) == VFinite(a) /\ VFinite(b) /\ VClose(a, b, RAdd(abs, RMul(rel, RMax(VNorm(a), VNorm(b)))))
\* linear spacing: n points from a to b
RLin(a, b, n) == [i \in 1 .. n |-> IF n = 1 THEN a ELSE RAdd(a, RMul(RDiv(i - 1, n - 1), RSub(b, a)))]
\* cosine spacing: n points from a to b
RCosSpace(a, b, n) == [i \in 1 .. n |->
   RAdd(RHalf(RAdd(a, b)), RMul(RHalf(RSub(b, a)), RNeg(RCos(RMul(Pi, RDiv(i - 1, n - 1))))))]
=============================================================================
