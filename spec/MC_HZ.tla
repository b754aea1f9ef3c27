------------------------------- MODULE MC_HZ -------------------------------
(* Where the terms and coefficients of HZAnsatz come from: contracting one by one the labels of

      1/k! t...t   1/(m! n!) h^m_n   1/p! z^p       (normal order, every label distinct)

   t labels join an upper label of h or of z, lower labels of h join an upper label of z or are projected.
   Every behaviour is one way to contract; a final state names a term of ZTerms.  Each term of ZTerms is
   reached, and the number of ways times 1/(k! m! n! p!) is ZCoef. *)
EXTENDS HZAnsatz, TLC
CONSTANTS MaxT, MaxH, MaxZ
VARIABLES k, h, p, tj, hj     \* tj[i] = <<"h", upper label>> or <<"z", label>>; hj[j] = label of z, 0 = projected
vars == <<k, h, p, tj, hj>>

UsedH == {tj[i][2] : i \in {j \in DOMAIN tj : tj[j][1] = "h"}}
UsedZ == {tj[i][2] : i \in {j \in DOMAIN tj : tj[j][1] = "z"}} \cup ({hj[j] : j \in DOMAIN hj} \ {0})

Init == /\ k \in 0..MaxT /\ h \in ZHOps(MaxH) /\ p \in 0..MaxZ /\ tj = <<>> /\ hj = <<>>
JoinTH == /\ Len(tj) < k /\ \E u \in (1..h[1]) \ UsedH : tj' = Append(tj, <<"h", u>>)
          /\ UNCHANGED <<k, h, p, hj>>
JoinTZ == /\ Len(tj) < k /\ \E u \in (1..p) \ UsedZ : tj' = Append(tj, <<"z", u>>)
          /\ UNCHANGED <<k, h, p, hj>>
JoinHZ == /\ Len(tj) = k /\ Len(hj) < h[2] /\ \E u \in (1..p) \ UsedZ : hj' = Append(hj, u)
          /\ UNCHANGED <<k, h, p, tj>>
Project == /\ Len(tj) = k /\ Len(hj) < h[2] /\ hj' = Append(hj, 0)
           /\ UNCHANGED <<k, h, p, tj>>
Next == JoinTH \/ JoinTZ \/ JoinHZ \/ Project
Spec == Init /\ [][Next]_vars

Final == Len(tj) = k /\ Len(hj) = h[2]
Term == LET a == Cardinality(UsedH) b == k - a c == Cardinality({j \in DOMAIN hj : hj[j] # 0})
        IN <<a, b, h[1], h[2], c, p>>
Om(x) == <<HLow(x), HUp(x) + ZUp(x)>>

\* every contraction is a term of the projection it ends on, and no label is used twice
Sound == Final => /\ Term \in ZTerms(Om(Term), MaxH, MaxZ, MaxT)
                  /\ Cardinality(UsedH) + Cardinality({i \in DOMAIN tj : tj[i][1] = "z"}) = k
                  /\ Cardinality(UsedZ) = (k - Cardinality(UsedH)) + Cardinality({j \in DOMAIN hj : hj[j] # 0})

\* number of injections of c labels into q
RECURSIVE Falling(_, _)
Falling(q, c) == IF c = 0 THEN 1 ELSE q * Falling(q - 1, c - 1)
\* ways to reach a term: which t's join h, and with what; which z labels take the rest; which lower labels of h are projected
Ways(x) == Choose(Ta(x) + Tb(x), Ta(x)) * Falling(Hm(x), Ta(x)) * Falling(Zp(x), Tb(x))
           * Choose(Hn(x), Cc(x)) * Falling(Zp(x) - Tb(x), Cc(x))

\* counted by enumerating the contractions of one (k, h, p) as functions
Contractions(kk, hh, pp) ==
  {f \in [1..(kk + hh[2]) -> (0..(hh[1] + pp))] :
     /\ \A i \in 1..kk : f[i] # 0
     /\ \A j \in (kk + 1)..(kk + hh[2]) : f[j] = 0 \/ f[j] > hh[1]
     /\ \A i, j \in DOMAIN f : i # j /\ f[i] = f[j] => f[i] = 0}
NameOf(f, kk, hh, pp) ==
  LET a == Cardinality({i \in 1..kk : f[i] <= hh[1]})
  IN <<a, kk - a, hh[1], hh[2], Cardinality({j \in (kk + 1)..(kk + hh[2]) : f[j] # 0}), pp>>

\* evaluated once per initial state
Counted ==
  (tj = <<>> /\ hj = <<>>) =>
    LET all == Contractions(k, h, p)
        names == {NameOf(f, k, h, p) : f \in all}
        terms == {x \in UNION {ZTerms(o, MaxH, MaxZ, MaxT) : o \in (0..MaxH) \X (0..(MaxH + MaxZ))} :
                    Ta(x) + Tb(x) = k /\ <<Hm(x), Hn(x)>> = h /\ Zp(x) = p}
    IN /\ names = terms
       /\ \A x \in names : LET n == Cardinality({f \in all : NameOf(f, k, h, p) = x})
                           IN n = Ways(x) /\ RMul(R(n, 1), InvFactProd(<<k, h[1], h[2], p>>)) = ZCoef(x)

\* the side of the time derivative is the part without lower labels of h; a z_t projection has no t
Parts == /\ \A o \in (0..2) \X (0..3) : ZLhsTerms(o, MaxH, MaxZ, MaxT) \subseteq ZTerms(o, MaxH, MaxZ, MaxT)
         /\ \A x \in ZTerms(<<0, 1>>, MaxH, MaxZ, 0) : Ta(x) + Tb(x) = 0
\* raising a truncation never removes a term or changes its coefficient
Monotone == \A o \in (0..1) \X (0..2) :
              /\ ZTerms(o, MaxH - 1, MaxZ, MaxT) \subseteq ZTerms(o, MaxH, MaxZ, MaxT)
              /\ ZTerms(o, MaxH, MaxZ - 1, MaxT) \subseteq ZTerms(o, MaxH, MaxZ, MaxT)
              /\ ZTerms(o, MaxH, MaxZ, MaxT - 1) \subseteq ZTerms(o, MaxH, MaxZ, MaxT)
ASSUME Parts /\ Monotone
============================================================================
