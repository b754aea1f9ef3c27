-------------------------------- MODULE Comb --------------------------------
(* The combinatorics all generators share: partitions of an order into the orders of amplitudes, their classes, the
   distinct orders of a product, and the symmetrization of a tensor over its mode axes. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Decreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]

\* partitions of n with parts of at most m, largest first
RECURSIVE Parts(_, _)
Parts(n, m) == IF n = 0 THEN {<<>>}
               ELSE UNION {{<<k>> \o p : p \in Parts(n - k, k)} : k \in 1..(IF m < n THEN m ELSE n)}
Partitions(n) == Parts(n, n)

Large(p) == Cardinality({i \in DOMAIN p : p[i] > 1})
\* at most one factor beyond the singles: the products the mixed ansatz keeps
Mixed(n) == {p \in Partitions(n) : Large(p) <= 1}
\* ... of two or more factors
Linked(n) == {p \in Mixed(n) : Len(p) > 1}
\* the remaining ones
Unlinked(n) == {p \in Partitions(n) : Large(p) > 1}
\* only singles
Connected(n) == [i \in 1..n |-> 1]

\* the distinct orders of the items of s
RECURSIVE Orders(_)
Orders(s) == IF s = <<>> THEN {<<>>}
             ELSE UNION {{<<v>> \o r : r \in Orders(RemoveAt(s, CHOOSE i \in DOMAIN s : s[i] = v))} : v \in {s[i] : i \in DOMAIN s}}

\* the axes of a tensor with two electronic axes (0, 1) and n mode axes
ModeAxes(n) == [i \in 1..n |-> i + 1]
Symmetrized(n) == {<<0, 1>> \o p : p \in Orders(ModeAxes(n))}

Els(s) == {s[i] : i \in DOMAIN s}
NoRepeats(s) == Cardinality(Els(s)) = Len(s)
=============================================================================
