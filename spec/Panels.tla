-------------------------------- MODULE Panels --------------------------------
(* Quadrilateral panels (property C03): a panel is a record with corners       *)
(* fl, fr, bl, br.                                                             *)
EXTENDS Reals64, SequencesExt, TLC

RightLeg(p) == VSub(p.fr, p.br)          \* back to front
FrontLeg(p) == VSub(p.fl, p.fr)          \* right to left
LeftLeg(p)  == VSub(p.bl, p.fl)          \* front to back
BackLeg(p)  == VSub(p.br, p.bl)          \* left to right
\* bound vortex points at the quarter chord of the sides, control point at three quarters, midway
FrontRightVortex(p) == VLerp(p.fr, p.br, RRat(1, 4))
FrontLeftVortex(p)  == VLerp(p.fl, p.bl, RRat(1, 4))
Colloc(p) == VMid(VLerp(p.fr, p.br, RRat(3, 4)), VLerp(p.fl, p.bl, RRat(3, 4)))
Diagonals(p) == VCross(VSub(p.fr, p.bl), VSub(p.fl, p.br))
Area(p)   == RHalf(VNorm(Diagonals(p)))
Normal(p) == VUnit(Diagonals(p))
ProjArea(p, n) == RHalf(RAbs(VDot(Diagonals(p), n)))
Spanwise(p)  == VUnit(VSub(BackLeg(p), FrontLeg(p)))
Chordwise(p) == VUnit(VSub(LeftLeg(p), RightLeg(p)))
MeanSpan(p)  == RHalf(RAdd(VNorm(FrontLeg(p)), VNorm(BackLeg(p))))
MeanChord(p) == RHalf(RAdd(VNorm(RightLeg(p)), VNorm(LeftLeg(p))))
Centroid(p)  == VScale(RRat(1, 4), VAdd(VAdd(p.fl, p.fr), VAdd(p.bl, p.br)))
=============================================================================
