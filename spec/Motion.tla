-------------------------------- MODULE Motion --------------------------------
(***************************************************************************)
(* Prescribed motions (property C05).  A motion of a quantity is            *)
(* <<amplitude, period, spacing, waveform>>; its value at time t is the     *)
(* base value plus the oscillation.                                         *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

Frac(x) == RSub(x, RFloor(x))
\* triangular wave of unit amplitude and period, starting at zero, rising
Triangle(u0) ==
  LET u == Frac(u0) IN
  IF RLe(u, RRat(1, 4)) THEN RMul(4, u)
  ELSE IF RLe(u, RRat(3, 4)) THEN RSub(2, RMul(4, u))
  ELSE RSub(RMul(4, u), 4)
\* the custom waveforms used by the drivers, as functions of the phase (radians)
Waveform(name, x) ==
  CASE name = "skewed" -> RAdd(RSin(x), RHalf(RSin(RMul(2, x))))
    [] name = "cubed"  -> RMul(RSin(x), RSq(RSin(x)))
    [] name = "gain2"  -> RMul(2, RSin(x))
    [] name = "drift"  -> RMul(RRat(1, 10), x)
TwoPi == RMul(2, Pi)
Still(m) == REq(m[1], 0) \/ REq(m[2], 0)
Osc(m, base, t) ==
  IF Still(m) THEN base
  ELSE LET u == RDiv(t, m[2]) IN
       RAdd(base, RMul(m[1], CASE m[3] = "sine"    -> RSin(RMul(TwoPi, u))
                               [] m[3] = "uniform" -> Triangle(u)
                               [] m[3] = "custom"  -> Waveform(m[4], RMul(TwoPi, u))))
Time(k, dt) == RMul(k, dt)

\* a point moving along the three axes
OscPoint(mx, my, mz, base, t) == << Osc(mx, base[1], t), Osc(my, base[2], t), Osc(mz, base[3], t) >>

(***************************************************************************)
(* Cross sections, outward from the root.  bs: base leading edges, ms: a    *)
(* record of motions (sweep, pitch, heave) for each section.                *)
(***************************************************************************)
RadToDeg(a) == RMul(a, RDiv(180, Pi))
Offset(bs, n)  == VSub(bs[n], bs[n - 1])
Reach(d)       == VNorm(d)
BaseSweep(d)   == RadToDeg(RAtan2(d[3], RSqrt(RAdd(RSq(d[1]), RSq(d[2])))))
BaseHeave(d)   == RadToDeg(RAtan2(d[1], d[2]))
Vertical(bs, n) == n > 1 /\ REq(bs[n][2], bs[n - 1][2])
Direction(sweep, heave) ==
  LET s == DegToRad(sweep) h == DegToRad(heave) IN
  << RMul(RCos(s), RSin(h)), RMul(RCos(s), RCos(h)), RSin(s) >>
SectionStep(bs, ms, n, inner, t) ==
  LET d == Offset(bs, n) IN
  IF Vertical(bs, n) THEN VAdd(inner, d)
  ELSE VAdd(inner, VScale(Reach(d), Direction(Osc(ms[n].sweep, BaseSweep(d), t), Osc(ms[n].heave, BaseHeave(d), t))))
\* leading edges of all sections at time t
SectionPath(bs, ms, t) ==
  FoldLeft(LAMBDA acc, n : Append(acc, SectionStep(bs, ms, n, acc[n - 1], t)),
           << bs[1] >>, [n \in 1 .. Len(bs) - 1 |-> n + 1])
SectionTwist(bs, ms, n, base, t) == IF Vertical(bs, n) THEN base ELSE Osc(ms[n].pitch, base, t)
=============================================================================
