------------------------------- MODULE T_Kernel -------------------------------
(* C08: recorded evaluations of the induced-velocity functions and recorded   *)
(* vortex objects against the law of BiotSavart.                              *)
EXTENDS BiotSavart, TraceBase
VARIABLE l

\* segments of vortex m of the event
SegsOf(ev, m) ==
  CASE ev.kind = "line"      -> << <<ev.origins[m], ev.terminations[m]>> >>
    [] ev.kind = "ring"      -> RingSegs([br |-> ev.br[m], fr |-> ev.fr[m], fl |-> ev.fl[m], bl |-> ev.bl[m]])
    [] ev.kind = "chordwise" -> ChordSegs([br |-> ev.br[m], fr |-> ev.fr[m], fl |-> ev.fl[m], bl |-> ev.bl[m]])
    [] ev.kind = "horseshoe" -> HorseshoeSegs([br |-> ev.br[m], fr |-> ev.fr[m], fl |-> ev.fl[m], bl |-> ev.bl[m]])

AgeOf(ev, m) == IF Has(ev, "ages") THEN ev.ages[m] ELSE 0
CoreOf(ev, m) == Core2(ev.strengths[m], AgeOf(ev, m), ev.nu)
NV(ev) == Len(ev.strengths)
NP(ev) == Len(ev.points)

Law(ev, n, m) == SegsVel(ev.points[n], SegsOf(ev, m), ev.strengths[m], CoreOf(ev, m))
Tol(ev, n, m) == SegsTol(ev.points[n], SegsOf(ev, m), ev.strengths[m], CoreOf(ev, m))

VelClauses(ev) ==
  LET law  == TLCEval([n \in 1 .. NP(ev) |-> [m \in 1 .. NV(ev) |-> Law(ev, n, m)]])
      tol  == TLCEval([n \in 1 .. NP(ev) |-> [m \in 1 .. NV(ev) |-> Tol(ev, n, m)]])
      sumv(n) == FoldLeft(LAMBDA a, m : VAdd(a, law[n][m]), VZero, [m \in 1 .. NV(ev) |-> m])
      sumt(n) == FoldLeft(LAMBDA a, m : RAdd(a, tol[n][m]), RPow(10, -14), [m \in 1 .. NV(ev) |-> m])
  IN  When(Has(ev, "collapsed"),
        << <<"collapsed-shape", Len(ev.collapsed) = NP(ev)>>,
           <<"collapsed-finite", \A n \in 1 .. NP(ev) : VFinite(ev.collapsed[n])>>,
           <<"collapsed-law", \A n \in 1 .. NP(ev) : VClose(ev.collapsed[n], sumv(n), sumt(n))>> >>)
      \o When(Has(ev, "expanded"),
        << <<"expanded-shape", Len(ev.expanded) = NP(ev) /\ \A n \in 1 .. NP(ev) : Len(ev.expanded[n]) = NV(ev)>>,
           <<"expanded-finite", \A n \in 1 .. NP(ev) : \A m \in 1 .. NV(ev) : VFinite(ev.expanded[n][m])>>,
           <<"expanded-law", \A n \in 1 .. NP(ev) : \A m \in 1 .. NV(ev) :
               VClose(ev.expanded[n][m], law[n][m], tol[n][m])>> >>)

\* inputs must not be modified by an evaluation
PureClauses(ev) == << <<"inputs-unchanged", ev.inputs_same>> >>

LineOk(s, a, b, g) ==
  /\ VNear(s.origin, a, RPow(10, -12), RPow(10, -12))
  /\ VNear(s.termination, b, RPow(10, -12), RPow(10, -12))
  /\ RNear(s.strength, g, RPow(10, -12), 0)
  /\ VNear(s.vector, VSub(b, a), RPow(10, -12), RPow(10, -12))
  /\ VNear(s.center, VMid(a, b), RPow(10, -12), RPow(10, -12))

RingObjClauses(ev) ==
  << <<"ring-right-leg", LineOk(ev.right, ev.br, ev.fr, ev.g)>>,
     <<"ring-front-leg", LineOk(ev.front, ev.fr, ev.fl, ev.g)>>,
     <<"ring-left-leg", LineOk(ev.left, ev.fl, ev.bl, ev.g)>>,
     <<"ring-back-leg", LineOk(ev.back, ev.bl, ev.br, ev.g)>>,
     <<"ring-strength", RNear(ev.strength, ev.g, RPow(10, -12), 0)>>,
     <<"ring-corners", /\ VNear(ev.ofl, ev.fl, RPow(10, -12), 0) /\ VNear(ev.ofr, ev.fr, RPow(10, -12), 0)
                       /\ VNear(ev.obl, ev.bl, RPow(10, -12), 0) /\ VNear(ev.obr, ev.br, RPow(10, -12), 0)>>,
     <<"ring-center", VNear(ev.center,
          VScale(RRat(1, 4), VAdd(VAdd(ev.fl, ev.fr), VAdd(ev.bl, ev.br))), RPow(10, -10), RPow(10, -10))>> >>

HorseshoeObjClauses(ev) ==
  LET far(p) == VAdd(p, VScale(ev.len, ev.dir)) IN
  << <<"horseshoe-right-leg", LineOk(ev.right, far(ev.fr), ev.fr, ev.g)>>,
     <<"horseshoe-finite-leg", LineOk(ev.finite, ev.fr, ev.fl, ev.g)>>,
     <<"horseshoe-left-leg", LineOk(ev.left, ev.fl, far(ev.fl), ev.g)>>,
     <<"horseshoe-strength", RNear(ev.strength, ev.g, RPow(10, -12), 0)>> >>

Clauses(ev) ==
  CASE ev.e = "Vel"       -> VelClauses(ev) \o PureClauses(ev)
    [] ev.e = "Ring"      -> RingObjClauses(ev)
    [] ev.e = "Horseshoe" -> HorseshoeObjClauses(ev)
    [] ev.e = "Exception" -> ExceptionClauses
    [] OTHER              -> UnknownClauses

TInit == l = 1 /\ TraceStart
TNext == l <= Len(Trace) /\ Verdict(l, Trace[l], Clauses(Trace[l])) /\ l' = l + 1
=============================================================================
