------------------------------ MODULE Convergence ------------------------------
(* Convergence studies (C16).  A study walks over the settings in order, the last  *)
(* parameter fastest, evaluates each, and stops at the first one at which every    *)
(* parameter is settled.  A setting is a tuple of positions, sizes the number of   *)
(* values of each parameter; Loads(t) is the sequence of loads found at t.         *)
EXTENDS Reals64, SequencesExt, FiniteSetsExt, TLC

Total(sizes) == FoldLeft(LAMBDA a, n : a * n, 1, sizes)
\* the k-th setting, k = 1 .. Total
RECURSIVE Digits(_, _)
Digits(sizes, k) ==      \* k from 0
  IF sizes = <<>> THEN <<>>
  ELSE LET n == sizes[Len(sizes)] IN Append(Digits(SubSeq(sizes, 1, Len(sizes) - 1), k \div n), (k % n) + 1)
SettingAt(sizes, k) == Digits(sizes, k - 1)
Coarser(t, p) == [t EXCEPT ![p] = @ - 1]

\* largest change in percent from loads b to loads a
Change(a, b) == FoldLeft(LAMBDA m, i : RMax(m, RMul(100, RAbs(RDiv(RSub(a[i], b[i]), b[i])))), 0, [i \in DOMAIN a |-> i])
Converged(t, p, Loads(_), crit) == t[p] > 1 /\ RLt(Change(Loads(t), Loads(Coarser(t, p))), crit)
\* finest(p, i): the i-th value of parameter p is its gold standard
SettledIn(t, p, sizes, Loads(_), crit, finest(_, _)) ==
  sizes[p] = 1 \/ finest(p, t[p]) \/ Converged(t, p, Loads, crit)
Settled(t, sizes, Loads(_), crit, finest(_, _)) ==
  \A p \in DOMAIN sizes : SettledIn(t, p, sizes, Loads, crit, finest)
\* the settings returned when t is the first settled one: one step coarser wherever the
\* refinement did not matter
Answer(t, sizes, Loads(_), crit) ==
  [p \in DOMAIN sizes |-> IF sizes[p] > 1 /\ Converged(t, p, Loads, crit) THEN t[p] - 1 ELSE t[p]]

\* number of spanwise panels of a section of the given width and mean chord
SpanwisePanels(width, chord, nc, ar) ==
  LET q == RDiv(RMul(width, nc), RMul(chord, ar))
      up(n) == IF n < 1 THEN 1 ELSE n
  IN  {up(RRoundHalfEven(RSub(q, RPow(10, -9)))), up(RRoundHalfEven(q)), up(RRoundHalfEven(RAdd(q, RPow(10, -9))))}
=============================================================================
