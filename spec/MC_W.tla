------------------------------- MODULE MC_W -------------------------------
(* Where the terms of WAnsatz come from: products of amplitudes are built factor by factor from the Taylor
   series of exp(T), then one factor may be differentiated.  Also the residual: labels of h are contracted
   one by one with those of a W operator. *)
EXTENDS WAnsatz, TLC
CONSTANTS Order, Ranks
VARIABLES n, level, ansatz, prod, coef, d
vars == <<n, level, ansatz, prod, coef, d>>

Init == /\ n \in 1..Order /\ level \in 1..Order /\ ansatz \in Ansaetze
        /\ prod = <<>> /\ coef = ROne /\ d = 0
\* the k-th factor brings 1/k of the Taylor series and 1/c! of its amplitude
Multiply == /\ d = 0 /\ \E c \in 1..level :
                 /\ SumSeq(prod) + c <= n
                 /\ InAnsatz(Append(prod, c), ansatz)
                 /\ prod' = Append(prod, c)
                 /\ coef' = RMul(coef, R(1, (Len(prod) + 1) * Fact(c)))
            /\ UNCHANGED <<n, level, ansatz, d>>
Differentiate == /\ d = 0 /\ Len(prod) >= 2 /\ SumSeq(prod) = n
                 /\ d' \in DOMAIN prod /\ coef' = RNeg(coef)
                 /\ UNCHANGED <<n, level, ansatz, prod>>
Next == Multiply \/ Differentiate
Spec == Init /\ [][Next]_vars

Sound == SumSeq(prod) = n =>
           IF d = 0 THEN <<<<"product", prod, 0>>, coef>> \in ExpectedW(n, ansatz, level)
           ELSE <<<<"product", prod, d>>, coef>> \in ExpectedProductRule(n, ansatz, level)

\* every expected product can be built: prefixes of products in the ansatz are in the ansatz
Complete == prod = <<>> =>
  \A x \in ExpectedW(n, ansatz, level) : \A i \in 0..Len(x[1][2]) :
      LET q == SubSeq(x[1][2], 1, i) IN InAnsatz(q, ansatz) /\ SumSeq(q) <= n /\ MaxSeq(q) <= level

\* independent count: with every t_k = 1, n! W_n is the n-th Bell number (VECC), the truncated one counts
\* set partitions into blocks of at most `level`
RECURSIVE Blocks(_, _)
Blocks(q, lev) == IF q = 0 THEN 1
                  ELSE LET f[j \in 0..IMin(lev, q)] == IF j = 0 THEN 0 ELSE f[j - 1] + Choose(q - 1, j - 1) * Blocks(q - j, lev)
                       IN f[IMin(lev, q)]
RECURSIVE RSumSet(_)
RSumSet(S) == IF S = {} THEN RZero ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(x[2], RSumSet(S \ {x}))
Bell == (prod = <<>> /\ ansatz = "VECC") =>
          RMul(R(Fact(n), 1), RSumSet(ExpectedW(n, ansatz, level))) = R(Blocks(n, level), 1)

\* the ansaetze are nested, truncations are nested
Nested == prod = <<>> =>
  /\ ExpectedW(n, "VECI", level) \subseteq ExpectedW(n, "VE_MIXED", level)
  /\ ExpectedW(n, "VE_MIXED", level) \subseteq ExpectedW(n, "VECC", level)
  /\ ExpectedW(n, ansatz, level) \subseteq ExpectedW(n, ansatz, level + 1)

(* Residual: 1/(m! k!) h^m_k  times  1/q! w_q, contract k lower labels of h with k of the q labels of w:
   q!/(q-k)! ways; the rest is projected. *)
RECURSIVE Falling(_, _)
Falling(q, c) == IF c = 0 THEN 1 ELSE q * Falling(q - 1, c - 1)
Residuals == \A pp \in 0..Ranks, hm \in 1..2 : \A x \in ExpectedResidual(pp, hm, 8, TRUE) :
  LET m == x[1][2][1] k == x[1][2][2] q == x[1][2][3]
  IN x[2] = RMul(R(Falling(q, k), 1), InvFactProd(<<m, k, q>>)) /\ m + q - k = pp
ASSUME Residuals
===========================================================================
