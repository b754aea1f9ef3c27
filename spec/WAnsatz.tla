------------------------------ MODULE WAnsatz ------------------------------
(* The wave operator exp(T) of vibrational electronic coupled cluster, order by order, and the
   amplitude derivative equations built on it. *)
EXTENDS Einsum

RECURSIVE Compositions(_)
Compositions(n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<k>> \o c : c \in Compositions(n - k)} : k \in 1..n}

Ansaetze == {"VECI", "VE_MIXED", "VECC"}

\* which products of amplitudes an ansatz keeps
InAnsatz(c, ansatz) ==
  CASE Len(c) <= 1 -> TRUE
    [] ansatz = "VECC" -> TRUE
    [] ansatz = "VE_MIXED" -> Cardinality({i \in DOMAIN c : c[i] > 1}) <= 1
    [] OTHER -> FALSE

\* the k-th Taylor term of exp(T) times the 1/n! of each amplitude
ProductCoef(c) == RMul(RInv(Fact(Len(c))), InvFactProd(c))

ExpectedW(n, ansatz, level) ==
  {<<<<"product", c, 0>>, ProductCoef(c)>> : c \in {x \in Compositions(n) : InAnsatz(x, ansatz) /\ MaxSeq(x) <= level}}

\* the product rule: each factor in turn is differentiated
ExpectedProductRule(n, ansatz, level) ==
  UNION {{<<<<"product", c, j>>, RNeg(ProductCoef(c))>> : j \in DOMAIN c} :
           c \in {x \in Compositions(n) : Len(x) >= 2 /\ InAnsatz(x, ansatz) /\ MaxSeq(x) <= level}}

ExpectedDt(n, ansatz, level) ==
  {<<<<"residual", <<n>>, 0>>, ROne>>, <<<<"epsilon", <<n>>, 0>>, RNeg(RInv(Fact(n)))>>}
    \cup ExpectedProductRule(n, ansatz, level)

---------------------------------------------------------------------------
\* what an einsum over amplitudes means: the sequence of amplitude orders along the electronic chain
Bad == <<"malformed", <<>>, 0>>

AbsW(e) ==
  LET c == Chain(e)
  IN IF c = <<>> THEN Bad
     ELSE LET v == [i \in DOMAIN c |-> Vib(e.o[c[i]].l, 2)]
          IN IF /\ \A i \in DOMAIN c : e.o[c[i]].k = "t" /\ Len(v[i]) = e.o[c[i]].m
                /\ Distinct(ConcatAll(v))
                /\ ConcatAll(v) = Vib(e.r, 2)
             THEN <<"product", [i \in DOMAIN c |-> e.o[c[i]].m], 0>> ELSE Bad

AbsDt(e) ==
  LET c == Chain(e)
      k == [i \in DOMAIN c |-> e.o[c[i]].k]
      v == [i \in DOMAIN c |-> Vib(e.o[c[i]].l, 2)]
      rank == [i \in DOMAIN c |-> e.o[c[i]].m]
      ds == {i \in DOMAIN c : k[i] = "dt"}
      straight == /\ \A i \in DOMAIN c : Len(v[i]) = rank[i]
                  /\ Distinct(ConcatAll(v)) /\ ConcatAll(v) = Vib(e.r, 2)
  IN CASE c = <<>> \/ ~straight -> Bad
       [] Len(c) = 1 /\ k[1] = "res" -> <<"residual", <<rank[1]>>, 0>>
       [] Len(c) = 2 /\ k[1] = "w" /\ k[2] = "eps" -> <<"epsilon", <<rank[1]>>, 0>>
       [] Len(c) >= 2 /\ Cardinality(ds) = 1 /\ (\A i \in DOMAIN c : k[i] \in {"t", "dt"}) ->
              <<"product", rank, CHOOSE i \in ds : TRUE>>
       [] OTHER -> Bad

---------------------------------------------------------------------------
(* Residual of order p as a function of W: H = sum h^m_n, W = sum w_q. *)
HTerms(hmax) == {<<m, n>> \in (0..hmax) \X (0..hmax) : m + n <= hmax}

\* `ws` W operators are available; without the quadratic flag the pure second order couplings vanish
ExpectedResidual(p, hmax, ws, quadratic) ==
  LET ok(h) == /\ h[1] <= p
               /\ p - h[1] + h[2] <= ws
               /\ (h \in {<<2, 0>>, <<0, 2>>} => quadratic)
      co(h) == InvFactProd(<<h[1], h[2], p - h[1]>>)
  IN {<<<<"h w", <<h[1], h[2], p - h[1] + h[2]>>, 0>>, co(h)>> : h \in {x \in HTerms(hmax) : ok(x)}}

(* einsum of h (annihilating axes first, then creating axes) with one W operator *)
AbsResidual(e) ==
  LET c == Chain(e)
      h == e.o[c[1]]
      hv == Vib(h.l, 2)
      lower == SubSeq(hv, 1, h.n)
      upper == SubSeq(hv, h.n + 1, Len(hv))
      w == e.o[c[2]]
      wv == Vib(w.l, 2)
      wext == SelectSeq(wv, LAMBDA x : x \notin Rng(lower))
  IN CASE c = <<>> -> Bad
       [] h.k # "h" \/ Len(hv) # h.m + h.n \/ ~Distinct(hv) -> Bad
       [] Len(c) = 1 -> IF h.n = 0 /\ upper = Vib(e.r, 2) THEN <<"h w", <<h.m, 0, 0>>, 0>> ELSE Bad
       [] Len(c) = 2 ->
            IF /\ w.k = "w" /\ Len(wv) = w.m /\ Distinct(wv)
               /\ Rng(lower) \subseteq Rng(wv)
               /\ Rng(upper) \cap Rng(wv) = {}
               /\ upper \o wext = Vib(e.r, 2)
            THEN <<"h w", <<h.m, h.n, w.m>>, 0>> ELSE Bad
       [] OTHER -> Bad
===========================================================================
