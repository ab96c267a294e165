--------------------------------- MODULE Wake ---------------------------------
(***************************************************************************)
(* The wake as a state machine.  A wing's wake at step k is a sequence of k *)
(* rows, newest first; a row is a sequence of rings, left to right.         *)
(* Step: every point drifts, a new row is shed at the trailing edge.        *)
(***************************************************************************)
EXTENDS Reals64, SequencesExt, TLC

\* Drift(p): the displacement of point p during the step
DriftRing(r, Drift(_)) ==
  [r EXCEPT !.fl = VAdd(@, Drift(r.fl)), !.fr = VAdd(@, Drift(r.fr)),
            !.bl = VAdd(@, Drift(r.bl)), !.br = VAdd(@, Drift(r.br))]
\* tel, ter: left and right trailing points of each column after the step
\* gam: strengths of the trailing-edge rings before the step
ShedRow(rows, tel, ter, gam, Drift(_)) ==
  [j \in DOMAIN tel |->
     [fl |-> tel[j], fr |-> ter[j], g |-> gam[j], age |-> 0,
      \* the very first row is seeded by the displaced trailing edge itself
      bl |-> IF rows = <<>> THEN VAdd(tel[j], Drift(tel[j])) ELSE VAdd(rows[1][j].fl, Drift(rows[1][j].fl)),
      br |-> IF rows = <<>> THEN VAdd(ter[j], Drift(ter[j])) ELSE VAdd(rows[1][j].fr, Drift(rows[1][j].fr))]]
AgeRing(r, dt) == [r EXCEPT !.age = RAdd(@, dt)]
StepWake(rows, tel, ter, gam, dt, Drift(_)) ==
  << ShedRow(rows, tel, ter, gam, Drift) >> \o
  [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> AgeRing(DriftRing(rows[i][j], Drift), dt)]]

\* a wing's wake as rows, from the flat sequence
RowsOf(flat, n) == [i \in 1 .. (Len(flat) \div n) |-> SubSeq(flat, (i - 1) * n + 1, i * n)]
=============================================================================
