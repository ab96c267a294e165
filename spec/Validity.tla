------------------------------- MODULE Validity -------------------------------
(***************************************************************************)
(* Which definitions are well formed, and where an ill-formed one is        *)
(* reported (property C04).  A definition d has wings (as in Mesh, with the *)
(* name af of each section's airfoil), and optionally a motion m (as in     *)
(* Motion) and a plan request rq (as in TimePlan).  Objects are built       *)
(* inside out: airfoil and section, section by section, then their wing,    *)
(* wing by wing, then the airplane, then the movement.                      *)
(***************************************************************************)
EXTENDS TimePlan

KnownNames == {"naca0012", "naca2412", "naca4415", "naca0009", "clarky", "e63", "n0012", "s1223", "NACA0012", "ClarkY"}
\* a section is looked up by its name, unless the user gave its outline (drawn): then any name will do
SectionOk(s) == /\ "drawn" \in DOMAIN s \/ s.af \in KnownNames
                /\ RLt(0, s.chord)
                /\ s.cst \in {"symmetric", "asymmetric"}
                /\ s.ss \in {"cosine", "uniform"}
VEq(a, b)  == \A i \in 1 .. 3 : REq(a[i], b[i])
\* directions are compared up to rounding: nobody can state a slanted unit vector exactly
Rounding == RPow(10, -8)
Small(x) == RLe(RAbs(x), Rounding)
Parallel(a, b) == LET x == VCross(a, b) IN \A i \in 1 .. 3 : Small(x[i])
WingOk(w) == /\ Len(w.secs) >= 2
             /\ w.cs \in {"cosine", "uniform"}
             /\ VEq(w.secs[1].n, w.n)
             /\ VEq(w.secs[1].le, VZero)
             /\ Small(VDot(w.c, w.n))
             /\ \A k \in DOMAIN w.secs : Parallel(VCross(w.n, w.secs[k].n), w.c)
AirplaneOk(d) == Len(d.wings) >= 1
\* motions: spacing known, custom motions with a function, the root section only pitches
PlainOk(m)  == m[3] \in {"sine", "uniform"}
SecMoveOk(m) == m[3] \in {"sine", "uniform"} \/ (m[3] = "custom" /\ m[4] # "none")
MovesAtAll(m) == ~(REq(m[1], 0) /\ REq(m[2], 0))
MotionOk(d) ==
  /\ \A ax \in {"x", "y", "z"} : PlainOk(d.m.air[ax])
  /\ PlainOk(d.m.v)
  /\ \A w \in DOMAIN d.m.wings :
       /\ \A ax \in {"x", "y", "z"} : PlainOk(d.m.wings[w][ax])
       /\ \A n \in DOMAIN d.m.wings[w].secs : \A q \in {"sweep", "pitch", "heave"} : SecMoveOk(d.m.wings[w].secs[n][q])
       /\ ~MovesAtAll(d.m.wings[w].secs[1].sweep) /\ ~MovesAtAll(d.m.wings[w].secs[1].heave)
PeriodsOf(d) ==
  << d.m.air.x[2], d.m.air.y[2], d.m.air.z[2], d.m.v[2] >> \o
  FoldLeft(LAMBDA a, w : a \o << w.x[2], w.y[2], w.z[2] >> \o
             FoldLeft(LAMBDA b, s : b \o << s.sweep[2], s.pitch[2], s.heave[2] >>, <<>>, w.secs), <<>>, d.m.wings)
MovementOk(d) == MotionOk(d) /\ PlanLegal(d.rq, PeriodsOf(d))

\* the stages of building, in order, each with whether it is well formed
Stages(d) ==
  FoldLeft(LAMBDA a, w :
     Append(a \o [k \in DOMAIN d.wings[w].secs |-> << <<"section", w, k>>, SectionOk(d.wings[w].secs[k]) >>],
            << <<"wing", w, 0>>, WingOk(d.wings[w]) >>),
     <<>>, [i \in DOMAIN d.wings |-> i])
  \o << << <<"airplane", 0, 0>>, AirplaneOk(d) >> >>
  \o (IF "m" \in DOMAIN d THEN << << <<"movement", 0, 0>>, MovementOk(d) >> >> ELSE <<>>)
WellFormed(d) == \A i \in DOMAIN Stages(d) : Stages(d)[i][2]
\* where the first fault is reported
FirstFault(d) == LET st == Stages(d) i == CHOOSE i \in DOMAIN st : ~st[i][2] /\ \A j \in 1 .. i - 1 : st[j][2] IN st[i][1]
=============================================================================
