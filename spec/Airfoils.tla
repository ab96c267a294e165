------------------------------- MODULE Airfoils -------------------------------
(***************************************************************************)
(* Airfoil sections (property C02): outlines, camber lines, resampling and  *)
(* control surfaces.  A curve is a sequence of points <<x, y>>.             *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

P2Add(a, b) == << RAdd(a[1], b[1]), RAdd(a[2], b[2]) >>
P2Sub(a, b) == << RSub(a[1], b[1]), RSub(a[2], b[2]) >>
P2Scale(k, a) == << RMul(k, a[1]), RMul(k, a[2]) >>
P2Dist(a, b) == RSqrt(RAdd(RSq(RSub(a[1], b[1])), RSq(RSub(a[2], b[2]))))
P2Close(a, b, tol) == RClose(a[1], b[1], tol) /\ RClose(a[2], b[2], tol)

(***************************** interpolation *******************************)
\* number of elements of the increasing sequence xs that are <= x
CountLe(xs, x) == FoldLeft(LAMBDA a, y : IF RLe(y, x) THEN a + 1 ELSE a, 0, xs)
\* linear interpolation in the table xs -> ys, held constant outside
InterpClamp(xs, ys, x) ==
  LET n == Len(xs)
      k == CountLe(xs, x)
  IN  IF k = 0 THEN ys[1] ELSE IF k = n THEN ys[n]
      ELSE RLerp(ys[k], ys[k + 1], RDiv(RSub(x, xs[k]), RSub(xs[k + 1], xs[k])))
\* linear interpolation, extended beyond the ends
InterpExtend(xs, ys, x) ==
  LET n == Len(xs)
      k0 == CountLe(xs, x)
      k == IF k0 < 1 THEN 1 ELSE IF k0 > n - 1 THEN n - 1 ELSE k0
  IN  RLerp(ys[k], ys[k + 1], RDiv(RSub(x, xs[k]), RSub(xs[k + 1], xs[k])))
Xs(c) == [i \in DOMAIN c |-> c[i][1]]
Ys(c) == [i \in DOMAIN c |-> c[i][2]]

(***************************** camber line *********************************)
\* index of the leading edge: first point with the smallest x
LeadingEdge(c) == FoldLeft(LAMBDA b, i : IF RLt(c[i][1], c[b][1]) THEN i ELSE b, 1, [i \in 1 .. Len(c) |-> i])
UpperLE(c) == LET k == LeadingEdge(c) IN [i \in 1 .. k |-> c[k + 1 - i]]     \* LE -> TE
LowerLE(c) == LET k == LeadingEdge(c) IN [i \in 1 .. Len(c) - k + 1 |-> c[k + i - 1]]
MidLine(u, w) == [i \in DOMAIN u |-> P2Scale(Half, P2Add(u[i], w[i]))]
Mcl(c) == MidLine(UpperLE(c), LowerLE(c))

\* cumulative arc length, normalised to end at one
ArcFractions(c) ==
  LET cum == FoldLeft(LAMBDA acc, i : Append(acc, RAdd(acc[Len(acc)], P2Dist(c[i], c[i + 1]))),
                      <<0>>, [i \in 1 .. Len(c) - 1 |-> i])
  IN  TLCEval([i \in DOMAIN cum |-> RDiv(cum[i], cum[Len(cum)])])
\* the points at the given fractions of the length
Sample(c, fr) ==
  LET s == ArcFractions(c)
      xs == TLCEval(Xs(c))
      ys == TLCEval(Ys(c))
  IN  TLCEval([i \in DOMAIN fr |-> << InterpClamp(s, xs, fr[i]), InterpClamp(s, ys, fr[i]) >>])

(**************************** control surface ******************************)
Rot2(p, deg) == LET a == DegToRad(deg) IN
  << RSub(RMul(RCos(a), p[1]), RMul(RSin(a), p[2])), RAdd(RMul(RSin(a), p[1]), RMul(RCos(a), p[2])) >>
HingePoint(mcl, h) == << h, InterpExtend(Xs(mcl), Ys(mcl), h) >>
\* positive deflection is trailing edge down: rotation by -deflection about the hinge
FlapMcl(mcl, h, defl) ==
  LET hp == TLCEval(HingePoint(mcl, h)) IN
  TLCEval([i \in DOMAIN mcl |-> IF RLt(h, mcl[i][1]) THEN P2Add(hp, Rot2(P2Sub(mcl[i], hp), RNeg(defl))) ELSE mcl[i]])
FlapThickness(mcl, umm, h, defl) ==
  TLCEval([i \in DOMAIN mcl |-> IF RLt(h, mcl[i][1]) THEN Rot2(umm[i], RNeg(defl)) ELSE umm[i]])
\* outline (TE -> upper -> LE -> lower -> TE) from camber line and half-thickness vectors
Outline(mcl, umm) ==
  LET n == Len(mcl) IN
  [i \in 1 .. 2 * n - 1 |-> IF i <= n THEN P2Add(mcl[n + 1 - i], umm[n + 1 - i])
                             ELSE P2Sub(mcl[i - n + 1], umm[i - n + 1])]

(***************************** NACA 4-digit ********************************)
\* half thickness and camber of the section with maximum camber m, its position p, thickness t
NacaT(t, x) == RMul(RMul(5, t),
   RSum(<< RMul(RRat(2969, 10000), RSqrt(x)), RMul(RRat(-1260, 10000), x), RMul(RRat(-3516, 10000), RSq(x)),
           RMul(RRat(2843, 10000), RMul(x, RSq(x))), RMul(RRat(-1015, 10000), RSq(RSq(x))) >>))
NacaC(m, p, x) ==
  IF RLe(x, p) THEN RMul(RDiv(m, RSq(p)), RSub(RMul(RMul(2, p), x), RSq(x)))
  ELSE RMul(RDiv(m, RSq(RSub(1, p))), RSub(RAdd(RSub(1, RMul(2, p)), RMul(RMul(2, p), x)), RSq(x)))
NacaSlope(m, p, x) ==
  IF RLe(x, p) THEN RMul(RDiv(RMul(2, m), RSq(p)), RSub(p, x))
  ELSE RMul(RDiv(RMul(2, m), RSq(RSub(1, p))), RSub(p, x))
\* digits d1 d2 t -> upper/lower points at chord station x (no camber position means half chord)
NacaParams(d1, d2, tt) == [m |-> RRat(d1, 100), p |-> IF d2 = 0 THEN Half ELSE RRat(d2, 10), t |-> RRat(tt, 100)]
NacaUpper(q, x) == LET th == RAtan(NacaSlope(q.m, q.p, x)) yt == NacaT(q.t, x) IN
  << RSub(x, RMul(yt, RSin(th))), RAdd(NacaC(q.m, q.p, x), RMul(yt, RCos(th))) >>
NacaLower(q, x) == LET th == RAtan(NacaSlope(q.m, q.p, x)) yt == NacaT(q.t, x) IN
  << RAdd(x, RMul(yt, RSin(th))), RSub(NacaC(q.m, q.p, x), RMul(yt, RCos(th))) >>
NacaOutline(q, n) ==
  LET xs == TLCEval(RCosSpace(0, 1, n)) IN
  TLCEval([i \in 1 .. 2 * n - 1 |-> IF i <= n THEN NacaUpper(q, xs[n + 1 - i]) ELSE NacaLower(q, xs[i - n + 1])])
=============================================================================
