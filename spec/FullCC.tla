------------------------------ MODULE FullCC ------------------------------
(* The full coupled cluster ansatz: projections  <Omega| h exp(S) |0>  of the normal ordered product of
   one Hamiltonian operator h^m_n with up to `S` excitation operators t^m_n.

   m counts creation (upper) labels, n annihilation (lower) labels.  A t is described by how its labels
   are joined: <<mh, mo, nh, no>> = upper labels contracted with h, upper labels projected onto Omega,
   lower labels contracted with h, lower labels projected onto Omega.  t never joins t. *)
EXTENDS Einsum, SequencesExt

Rank(t) == t[1] + t[2] + t[3] + t[4]

\* every way one t of rank 1..cc can be joined; in the ground state t has no annihilation labels
TTypes(cc, ground) ==
  IF ground THEN {<<c, e, 0, 0>> : <<c, e>> \in {x \in (0..cc) \X (0..cc) : x[1] + x[2] \in 1..cc}}
  ELSE {t \in (0..cc) \X (0..cc) \X (0..cc) \X (0..cc) : Rank(t) \in 1..cc}

SeqLess(a, b) == \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* in increasing order: every multiset of t's is built exactly once, as a sorted sequence
TypeSeq(cc, ground) == SetToSortSeq(TTypes(cc, ground), SeqLess)

(* Joining is done one t at a time.  b = <<lower labels of h still free, upper labels of h still free,
   upper labels of Omega still free, lower labels of Omega still free>>.  When no further t joins, the
   labels h has left must be exactly the labels Omega has left. *)
Fits(t, b) == t[1] <= b[1] /\ t[2] <= b[4] /\ t[3] <= b[2] /\ t[4] <= b[3]
Join(t, b) == <<b[1] - t[1], b[2] - t[3], b[3] - t[4], b[4] - t[2]>>
Closed(b) == b[1] = b[3] /\ b[2] = b[4]

RECURSIVE Selections(_, _, _, _)
Selections(types, i, k, b) ==
  (IF Closed(b) THEN {<<>>} ELSE {}) \cup
  (IF k = 0 THEN {}
   ELSE UNION {{<<types[j]>> \o s : s \in Selections(types, j, k - 1, Join(types[j], b))} :
                 j \in {x \in i..Len(types) : Fits(types[x], b)}})

HOps(hmax) == {x \in (0..hmax) \X (0..hmax) : x[1] + x[2] <= hmax}

\* all terms of the projection onto Omega = <<upper, lower>> which involve h
TermsWith(h, types, s, om) == {<<h, ts>> : ts \in Selections(types, 1, s, <<h[2], h[1], om[1], om[2]>>)}

\* all terms of the projection onto Omega: <<h, sorted sequence of t's>>
Terms(hmax, cc, s, ground, om) ==
  LET types == TypeSeq(cc, ground) IN UNION {TermsWith(h, types, s, om) : h \in HOps(hmax)}

SumOf(ts, i) == SumSeq([j \in DOMAIN ts |-> ts[j][i]])
\* labels of h which are projected onto Omega
HUpperExt(h, ts) == h[1] - SumOf(ts, 3)
HLowerExt(h, ts) == h[2] - SumOf(ts, 1)

Connected(t) == t[1] + t[3] > 0

(* classification of a term *)
Class(om, ts) ==
  CASE \A i \in DOMAIN ts : Connected(ts[i]) -> "fully_connected"
    [] \E i \in DOMAIN ts : ~Connected(ts[i]) /\ ts[i][2] = om[2] /\ ts[i][4] = om[1] -> "unlinked_disconnected"
    [] OTHER -> "linked_disconnected"

(* prefactor: Taylor series, definition of h, and the permutations among the different t's joined to h *)
Prefactor(h, ts) ==
  IF ts = <<>> THEN ROne
  ELSE LET x == Cardinality({ts[i] : i \in {j \in DOMAIN ts : Connected(ts[j])}})
       IN RMul(R(Fact(x), 1), InvFactProd(<<h[1], h[2], Len(ts)>>))

OmegaOps(cc, p) == {<<m, n>> \in (0..cc) \X (0..cc) : m + n <= IMin(cc, p)}

---------------------------------------------------------------------------
(* Generated Python: ground state.  einsum(h, t, t, ...) multiplies the surfaces of h, then of the t's in
   the order they are written.  Every order of the k t's is written (t's do not commute on the surfaces),
   each with the prefactor of the term.  A single t is written once for each order of the external labels.
   Output axes: those of h first, then those of the t's, each t having its own run of axes.

   Abstract einsum: <<m, n, <<<<c, e, start>>, ...>>>> : h^m_n and the chain of t's, where t has c axes
   in common with h and e output axes from `start` on. *)
BadEinsum == <<-1, -1, <<>>>>

IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

AbsFcc(e) ==
  LET c == Chain(e)
  IN IF c = <<>> THEN BadEinsum
     ELSE
  LET h == e.o[c[1]]
      hv == Vib(h.l, 2)
      lower == SubSeq(hv, 1, h.n)
      upper == SubSeq(hv, h.n + 1, Len(hv))
      out == Vib(e.r, 2)
      k == Len(c) - 1
      tv(i) == Vib(e.o[c[i + 1]].l, 2)
      join(i) == SelectSeq(tv(i), LAMBDA x : x \in Rng(lower))
      ext(i) == SelectSeq(tv(i), LAMBDA x : x \in Rng(out))
      start(i) == IF ext(i) = <<>> THEN 0 ELSE IndexOf(out, ext(i)[1])
      ok == /\ h.k = "h" /\ Len(hv) = h.m + h.n /\ Distinct(hv)
            /\ Distinct(out)
            /\ upper = SubSeq(out, 1, h.m)
            /\ \A i \in 1..k : /\ e.o[c[i + 1]].k = "t" /\ e.o[c[i + 1]].n = 0
                               /\ Len(tv(i)) = e.o[c[i + 1]].m /\ Distinct(tv(i))
                               /\ Len(join(i)) + Len(ext(i)) = Len(tv(i))
                               /\ ext(i) = SubSeq(out, start(i), start(i) + Len(ext(i)) - 1)
            \* every label is used by exactly two of h, the t's and the output
            /\ \A x \in Rng(lower) : Cardinality({i \in 1..k : x \in Rng(tv(i))}) = 1
            /\ Rng(lower) \cap Rng(out) = {}
            /\ \A x \in Rng(SubSeq(out, h.m + 1, Len(out))) : Cardinality({i \in 1..k : x \in Rng(tv(i))}) = 1
            /\ Rng(upper) \cap UNION {Rng(tv(i)) : i \in 1..k} = {}
  IN IF ok THEN <<h.m, h.n, [i \in 1..k |-> <<Len(join(i)), Len(ext(i)), start(i)>>]>> ELSE BadEinsum

\* sorted sequence of the elements of a sequence of tuples (insertion sort)
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>>
                ELSE IF SeqLess(Head(s), x) THEN <<Head(s)>> \o Insert(x, Tail(s)) ELSE <<x>> \o s
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sorted(Tail(s)))

\* the term an abstract einsum belongs to
TermOf(a) == <<<<a[1], a[2]>>, Sorted([i \in DOMAIN a[3] |-> <<a[3][i][1], a[3][i][2], 0, 0>>])>>
Labelled(a) == Sorted(a[3])
RECURSIVE ProdMult(_, _)
ProdMult(S, s) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN Fact(Count(s, x)) * ProdMult(S \ {x}, s)

\* orders of the t's which read the same (t's without external axes and the same number of contractions)
Same(a) == ProdMult(Rng(a[3]), a[3])
Orders(a) == IF Len(a[3]) <= 1 THEN 1 ELSE Fact(Len(a[3])) \div Same(a)
EinsumCoef(om, a) ==
  LET t == TermOf(a)
      times == IF Len(a[3]) = 1 THEN Fact(om[2]) ELSE Same(a)
  IN RMul(R(times, 1), Prefactor(t[1], t[2]))

\* truncation flags: h^m_n needs order max(m, n), the t's need the largest rank; the bare h is always there
HGuard(t) == IF t[2] = <<>> THEN 0 ELSE IMax(t[1][1], t[1][2])
TGuard(t) == MaxSeq([i \in DOMAIN t[2] |-> Rank(t[2][i])])
===========================================================================
