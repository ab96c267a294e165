------------------------------ MODULE BiotSavart ------------------------------
(***************************************************************************)
(* Velocity induced by straight vortex segments with a viscous core, and by *)
(* the rings and horseshoes made of them (property C08; used by C09-C12,    *)
(* C19 and by the models of the solvers).                                   *)
(*                                                                          *)
(* A segment is a record-free tuple:  a = origin, b = termination,          *)
(* g = strength, c2 = squared core radius.                                  *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

Lamb   == RRat(125643, 100000)          \* growth constant of the viscous core
Squire == RRat(1, 10000)                \* turbulent-viscosity parameter
Eps    == RPow(2, -52)                  \* distance below which "touching"
FourPi == RMul(4, Pi)

\* squared core radius of a vortex of strength g and age t in a fluid of viscosity nu
Core2(g, t, nu) == RMul(RMul(4, Lamb), RMul(RAdd(nu, RMul(Squire, RAbs(g))), t))

\* is p on the axis (or an end point) of the segment a -> b ?
OnAxis(p, a, b) ==
  LET r1 == VSub(a, p)
      r2 == VSub(b, p)
      x  == VCross(r1, r2)
  IN  RLt(VNorm(r1), Eps) \/ RLt(VNorm(r2), Eps) \/ RLt(VDot(x, x), Eps)

\* finite-segment Biot-Savart law with core:
\*   v = g/(4 pi) (|r1|+|r2|)(|r1||r2| - r1.r2) / (|r1||r2| (|r1 x r2|^2 + |r0|^2 c2)) (r1 x r2)
SegVel(p, a, b, g, c2) ==
  LET r1 == VSub(a, p)
      r2 == VSub(b, p)
      x  == VCross(r1, r2)
      x2 == VDot(x, x)
      m1 == VNorm(r1)
      m2 == VNorm(r2)
  IN  IF RLt(x2, Eps) \/ RLt(m1, Eps) \/ RLt(m2, Eps) THEN VZero
      ELSE LET r0 == VSub(b, a)
               mm == RMul(m1, m2)
               k  == RDiv(RMul(RMul(RDiv(g, FourPi), RAdd(m1, m2)), RSub(mm, VDot(r1, r2))),
                          RMul(mm, RAdd(x2, RMul(VDot(r0, r0), c2))))
           IN  VScale(k, x)

\* rounding-error scale of SegVel (the law loses digits for points close to the axis)
SegErr(p, a, b, g, c2) ==
  LET r1 == VSub(a, p)
      r2 == VSub(b, p)
      x  == VCross(r1, r2)
      x2 == VDot(x, x)
      m1 == VNorm(r1)
      m2 == VNorm(r2)
  IN  IF RLt(x2, Eps) \/ RLt(m1, Eps) \/ RLt(m2, Eps) THEN 0
      ELSE LET r0 == VSub(b, a)
           IN RMul(RMul(RPow(2, -46), RMul(RAbs(g), RAdd(m1, m2))),
                   RDiv(RSqrt(x2), RAdd(x2, RMul(VDot(r0, r0), c2))))

\* The closed polygon of a ring is traversed back right -> front right -> front left -> back left.
RingSegs(v)      == << <<v.br, v.fr>>, <<v.fr, v.fl>>, <<v.fl, v.bl>>, <<v.bl, v.br>> >>
HorseshoeSegs(v) == << <<v.br, v.fr>>, <<v.fr, v.fl>>, <<v.fl, v.bl>> >>
ChordSegs(v)     == << <<v.br, v.fr>>, <<v.fl, v.bl>> >>

SegsVel(p, segs, g, c2) ==
  FoldLeft(LAMBDA acc, s : VAdd(acc, SegVel(p, s[1], s[2], g, c2)), VZero, segs)
SegsErr(p, segs, g, c2) ==
  FoldLeft(LAMBDA acc, s : RAdd(acc, SegErr(p, s[1], s[2], g, c2)), 0, segs)

\* comparison tolerance for the velocity of a set of segments
SegsTol(p, segs, g, c2) ==
  FoldLeft(LAMBDA acc, s : RAdd(acc, RAdd(RMul(RPow(10, -9), VNorm(SegVel(p, s[1], s[2], g, c2))),
                                          SegErr(p, s[1], s[2], g, c2))), RPow(10, -14), segs)

RingVel(p, v, g, c2)      == SegsVel(p, RingSegs(v), g, c2)
HorseshoeVel(p, v, g, c2) == SegsVel(p, HorseshoeSegs(v), g, c2)

\* A set of rings rs (each with br, fr, fl, bl, g, c2) at one point
RingsVel(p, rs) == FoldLeft(LAMBDA acc, r : VAdd(acc, RingVel(p, r, r.g, r.c2)), VZero, rs)
HorseshoesVel(p, hs) == FoldLeft(LAMBDA acc, h : VAdd(acc, HorseshoeVel(p, h, h.g, h.c2)), VZero, hs)
=============================================================================
