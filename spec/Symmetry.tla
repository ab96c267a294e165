------------------------------- MODULE Symmetry -------------------------------
(***************************************************************************)
(* How the loads of a case answer when the case is transformed (C18).       *)
(* Loads ld: a record of                                                    *)
(*   steps   one entry per solved instant: a sequence over the airplanes of *)
(*           [tf, tm, cf, cm] in wind axes                                  *)
(*   finals  one entry per reported list: [kind, what, vecs], kind "plain", *)
(*           "mean" or "rms"; what "F", "M", "CF" or "CM"                   *)
(* A transformation t: [kind, x] with a factor or a permutation x.          *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

Kinds == {"mirror", "move", "airplanes", "wings", "rename", "density", "speed", "size", "unfold", "turn", "split"}

\* reflection in the plane y = 0: of a force and of a moment
FlipF(f) == << f[1], RNeg(f[2]), f[3] >>
FlipM(m) == << RNeg(m[1]), m[2], RNeg(m[3]) >>

\* the factor on forces and on moments; coefficients never change
ForceFactor(t)  == CASE t.kind = "density" -> t.x [] t.kind = "speed" -> RSq(t.x) [] t.kind = "size" -> RSq(t.x) [] OTHER -> 1
MomentFactor(t) == CASE t.kind = "size" -> RMul(t.x, RSq(t.x)) [] OTHER -> ForceFactor(t)

Vector(t, what, v) ==
  LET f == IF t.kind # "mirror" THEN v ELSE IF what \in {"F", "CF"} THEN FlipF(v) ELSE FlipM(v)
  IN  CASE what = "F" -> VScale(ForceFactor(t), f) [] what = "M" -> VScale(MomentFactor(t), f) [] OTHER -> f
AirplaneLoads(t, a) == [tf |-> Vector(t, "F", a.tf), tm |-> Vector(t, "M", a.tm),
                        cf |-> Vector(t, "CF", a.cf), cm |-> Vector(t, "CM", a.cm)]
\* x[i]: the old place of the airplane now in place i
Permuted(t, s) == IF t.kind = "airplanes" THEN [i \in DOMAIN s |-> s[t.x[i]]] ELSE s
\* a root mean square does not see a reflection
Final(t, e) == [e EXCEPT !.vecs = Permuted(t, [i \in DOMAIN e.vecs |->
                  IF e.kind = "rms" /\ t.kind = "mirror" THEN e.vecs[i] ELSE Vector(t, e.what, e.vecs[i])])]
Transform(t, ld) ==
  [steps  |-> [k \in DOMAIN ld.steps |-> Permuted(t, [i \in DOMAIN ld.steps[k] |-> AirplaneLoads(t, ld.steps[k][i])])],
   finals |-> [k \in DOMAIN ld.finals |-> Final(t, ld.finals[k])]]

(*************************** self-mirrored cases ***************************)
\* def: op, airplanes; an airplane: ref, wings; a wing: le, n, sym, secs; a section: le, n, twist,
\* cst, defl, flat (its airfoil has no camber)
Upright(w) == VClose(w.n, <<0, 1, 0>>, 0)
InPlane(w) == REq(w.le[2], 0) /\ \A i \in DOMAIN w.secs :
                 LET s == w.secs[i] IN REq(s.le[2], 0) /\ REq(s.n[2], 0) /\ REq(s.twist, 0) /\ REq(s.defl, 0) /\ s.flat
OwnImage(w) == IF Upright(w) THEN w.sym /\ REq(w.le[2], 0) /\ \A i \in DOMAIN w.secs : w.secs[i].cst = "symmetric" \/ REq(w.secs[i].defl, 0)
               ELSE VClose(w.n, <<0, 0, 1>>, 0) /\ InPlane(w)
LeftRightSymmetric(def) ==
  /\ REq(def.op.beta, 0)
  /\ \A a \in DOMAIN def.airplanes : /\ REq(def.airplanes[a].ref[2], 0)
                                     /\ \A w \in DOMAIN def.airplanes[a].wings : OwnImage(def.airplanes[a].wings[w])
NoLateral(a, tolf, tolm) == RClose(a.tf[2], 0, tolf) /\ RClose(a.tm[1], 0, tolm) /\ RClose(a.tm[3], 0, tolm)

(******************************* comparison ********************************)
\* scale: [f, m] reference force and moment of the case; coefficients are of order one
LoadsClose(a, b, scale, tol) ==
  LET N(u, v, s) == VFinite(u) /\ VFinite(v) /\ VClose(u, v, RMul(tol, RAdd(s, VNorm(v))))
  IN  N(a.tf, b.tf, scale.f) /\ N(a.tm, b.tm, scale.m) /\ N(a.cf, b.cf, 1) /\ N(a.cm, b.cm, 1)
StepsClose(x, y, scale, tol) ==
  Len(x) = Len(y) /\ \A k \in DOMAIN x : Len(x[k]) = Len(y[k]) /\ \A i \in DOMAIN x[k] : LoadsClose(x[k][i], y[k][i], scale, tol)
FinalsClose(x, y, scale, tol) ==
  /\ Len(x) = Len(y)
  /\ \A k \in DOMAIN x : /\ x[k].kind = y[k].kind /\ x[k].what = y[k].what /\ Len(x[k].vecs) = Len(y[k].vecs)
                         /\ \A i \in DOMAIN x[k].vecs :
                              LET s == CASE x[k].what = "F" -> scale.f [] x[k].what = "M" -> scale.m [] OTHER -> 1
                                  v == y[k].vecs[i]
                              IN  VFinite(x[k].vecs[i]) /\ VClose(x[k].vecs[i], v, RMul(tol, RAdd(s, VNorm(v))))
=============================================================================
