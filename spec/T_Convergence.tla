----------------------------- MODULE T_Convergence -----------------------------
(* Recorded convergence studies against Convergence (C16).  A study is a Study    *)
(* event, its Eval events in order, and an Answer (or a Refused).                 *)
EXTENDS Convergence, TimePlan, TraceBase
VARIABLES l, from
T9 == RPow(10, -9)
S == Trace[from]
Steady == S.kind = "steady"
\* values of the parameters, outermost first; wakes: 1 prescribed, 0 free
Sizes == [p \in DOMAIN S.values |-> Len(S.values[p])]
Count == l - from                       \* this Eval is the Count-th
EvalAt(t) == Trace[from + (CHOOSE j \in 1 .. Total(Sizes) : SettingAt(Sizes, j) = t)]
Finest(p, i) == IF Steady THEN p = 1 /\ S.values[1][i] = 1
                ELSE (p = 3 /\ S.values[3][i] = 1) \/ (p = 1 /\ S.values[1][i] = 0)
Flat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
Masked(v) == Flat([i \in DOMAIN v |-> IF S.mask[i] THEN <<v[i]>> ELSE <<>>])
LoadsOf(ev) ==
  IF Steady THEN Flat([a \in DOMAIN ev.loads |-> << VNorm(ev.loads[a].cf), VNorm(ev.loads[a].cm) >>])
  ELSE LET f == IF S.static THEN ev.fin.CF ELSE ev.fin.rCF
           m == IF S.static THEN ev.fin.CM ELSE ev.fin.rCM
       IN  Flat([a \in DOMAIN f |-> Masked(f[a] \o m[a])])
Loads(t) == TLCEval(LoadsOf(EvalAt(t)))
SettledAt(k) == Settled(SettingAt(Sizes, k), Sizes, Loads, S.crit, Finest)

(************************* what each evaluation solved *********************)
Near(a, b) == RNear(a, b, T9, T9)
Near3(a, b) == VNear(a, b, T9, T9)
SameLine(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : RClose(a[i][1], b[i][1], RPow(10, -6)) /\ RClose(a[i][2], b[i][2], RPow(10, -6))
SameSection(a, b) ==
  /\ Near3(a.le, b.le) /\ Near(a.chord, b.chord) /\ Near3(a.n, b.n) /\ Near(a.twist, b.twist) /\ a.cst = b.cst
  /\ Near(a.hinge, b.hinge) /\ Near(a.defl, b.defl) /\ a.ss = b.ss /\ SameLine(a.mcl, b.mcl)
SameWing(a, b) ==
  /\ Near3(a.le, b.le) /\ Near3(a.n, b.n) /\ Near3(a.c, b.c) /\ a.sym = b.sym /\ a.cs = b.cs /\ a.name = b.name
  /\ Len(a.secs) = Len(b.secs) /\ \A s \in DOMAIN b.secs : SameSection(a.secs[s], b.secs[s])
SameAirplane(a, b) ==
  /\ a.name = b.name /\ Near3(a.ref, b.ref) /\ Near(a.weight, b.weight)
  /\ Len(a.wings) = Len(b.wings) /\ \A w \in DOMAIN b.wings : SameWing(a.wings[w], b.wings[w])
SameOp(a, b) == Near(a.rho, b.rho) /\ Near(a.v, b.v) /\ Near(a.alpha, b.alpha) /\ Near(a.beta, b.beta) /\ Near(a.nu, b.nu)
SameOsc(a, b) == Near(a[1], b[1]) /\ Near(a[2], b[2]) /\ a[3] = b[3] /\ a[4] = b[4]
SameMotion(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN b : SameOsc(a[i], b[i])
HalfColumns(w) == SumSeq([s \in 1 .. Len(w.secs) - 1 |-> w.secs[s].ns])
MeshFits(a, b, nc, ar) ==          \* a as solved, b as given
  \A w \in DOMAIN b.wings :
    LET x == a.wings[w] y == b.wings[w] IN
    /\ x.nc = nc /\ x.rows = nc /\ x.cols = (IF y.sym THEN 2 ELSE 1) * HalfColumns(x)
    /\ \A s \in 1 .. Len(y.secs) - 1 :
         x.secs[s].ns \in SpanwisePanels(RSub(y.secs[s + 1].le[2], y.secs[s].le[2]),
                                         RHalf(RAdd(y.secs[s].chord, y.secs[s + 1].chord)), nc, ar)
Val(t, p) == S.values[p][t[p]]
EvalClauses(ev) ==
  IF Count > Total(Sizes) THEN << <<"evaluates-within-ranges", FALSE>> >>
  ELSE
  LET t == SettingAt(Sizes, Count)
      nc == Val(t, Len(t))
      ar == Val(t, Len(t) - 1)
      same == Len(ev.airplanes) = Len(S.airplanes) /\ \A a \in DOMAIN S.airplanes : SameAirplane(ev.airplanes[a], S.airplanes[a])
  IN  << <<"evaluates-within-ranges", TRUE>>,
         <<"definition-unchanged", same /\ SameOp(ev.op, S.op)>>,
         <<"method-as-asked", ev.method = S.method>>,
         <<"stops-when-settled", Count = 1 \/ ~SettledAt(Count - 1)>> >>
      \o When(same, << <<"meshes-setting-under-test", \A a \in DOMAIN S.airplanes : MeshFits(ev.airplanes[a], S.airplanes[a], nc, ar)>> >>)
      \o When(~Steady, << <<"motion-unchanged", SameMotion(ev.motion, S.motion)>>,
                          <<"wake-under-test", ev.prescribed = (Val(t, 1) = 1)>>,
                          <<"length-under-test",
                             LET rq == IF S.static THEN [num_chords |-> Val(t, 2)] ELSE [num_cycles |-> Val(t, 2)]
                                 airs == [a \in DOMAIN ev.airplanes |-> [c_ref |-> ev.airplanes[a].c_ref, nc |-> ev.airplanes[a].wings[1].nc]]
                                 dts == PlanDt(rq, airs, S.op.v)
                             IN  Near(ev.dt, dts) /\ ev.steps \in PlanSteps(rq, airs, S.op.v, S.periods, dts)>> >>)
AnswerClauses(ev) ==
  LET n == l - from - 1                  \* evaluations made
      t == SettingAt(Sizes, n)
      a == Answer(t, Sizes, Loads, S.crit)
  IN  IF n = 0 \/ n > Total(Sizes) THEN << <<"evaluates-within-ranges", FALSE>> >>
      ELSE IF ev.none THEN << <<"nothing-only-when-exhausted", n = Total(Sizes) /\ ~SettledAt(n)>> >>
      ELSE << <<"answer-only-when-settled", SettledAt(n)>>,
              <<"answer-is-just-before", Len(ev.out) = Len(Sizes) /\ \A p \in DOMAIN Sizes : ev.out[p] = S.values[p][a[p]]>> >>
SameList(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])

Clauses(ev) ==
  CASE ev.e = "Study"   -> << <<"study", TRUE>> >>
    [] ev.e = "Eval"    -> EvalClauses(ev)
    [] ev.e = "Answer"  -> AnswerClauses(ev) \o << <<"input-untouched", SameList(ev.before, ev.after)>> >>
    [] ev.e = "Refused" -> << <<"refuses-unknown-method", S.method = "unknown" /\ l = from + 1>> >>
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER -> UnknownClauses
TInit == l = 1 /\ from = 0 /\ TraceStart
TNext == /\ l <= Len(Trace)
         /\ Verdict(l, Trace[l], Clauses(Trace[l]))
         /\ from' = IF Trace[l].e = "Study" THEN l ELSE from
         /\ l' = l + 1
=============================================================================
