----------------------------- MODULE MC_FullCC -----------------------------
(* The full CC terms built by adding one cluster operator at a time, against an enumeration that knows
   nothing of the building order; what the classes mean; how Python writes out a term. *)
EXTENDS FullCC, TLC
CONSTANTS MaxH, MaxCC, MaxS, MaxOm, Ground
VARIABLES h, om, ts, b
vars == <<h, om, ts, b>>
Types == TTypes(MaxCC, Ground)
Leq(x, y) == x = y \/ SeqLess(x, y)

Init == /\ h \in HOps(MaxH) /\ om \in {o \in (0..MaxOm) \X (0..MaxOm) : o[1] + o[2] <= MaxOm}
        /\ ts = <<>> /\ b = <<h[2], h[1], om[1], om[2]>>
Add == /\ Len(ts) < MaxS
       /\ \E t \in Types : /\ Fits(t, b) /\ (IF ts = <<>> THEN TRUE ELSE Leq(ts[Len(ts)], t))
                           /\ ts' = Append(ts, t) /\ b' = Join(t, b)
       /\ UNCHANGED <<h, om>>
Spec == Init /\ [][Add]_vars

\* what has been taken and what is left add up to what h and Omega have
Conserved == /\ b[1] = h[2] - SumOf(ts, 1) /\ b[2] = h[1] - SumOf(ts, 3)
             /\ b[3] = om[1] - SumOf(ts, 4) /\ b[4] = om[2] - SumOf(ts, 2)
             /\ \A i \in 1..4 : b[i] >= 0
Expected == TermsWith(h, TypeSeq(MaxCC, Ground), MaxS, om)
\* states in which the joining is closed are exactly the terms
Sound == Closed(b) => <<h, ts>> \in Expected

\* independent enumeration: all sequences of types, filtered by label counts only; as multisets
AsMult(q) == [t \in Rng(q) |-> Count(q, t)]
Brute == {AsMult(q) : q \in {s \in UNION {[1..k -> Types] : k \in 0..MaxS} :
                       /\ h[2] - SumOf(s, 1) >= 0 /\ h[1] - SumOf(s, 3) >= 0
                       \* labels of Omega not taken by t's are exactly those h has left
                       /\ om[1] - SumOf(s, 4) = h[2] - SumOf(s, 1)
                       /\ om[2] - SumOf(s, 2) = h[1] - SumOf(s, 3)}}
Complete == ts = <<>> => {AsMult(x[2]) : x \in Expected} = Brute /\ Cardinality(Expected) = Cardinality(Brute)

\* the classes are those of the graph whose edges are the contractions
Node(i) == i \in DOMAIN ts /\ Connected(ts[i])
Classes == Closed(b) =>
  LET loose == {i \in DOMAIN ts : ~Connected(ts[i])} c == Class(om, ts)
  IN /\ (c = "fully_connected") = (loose = {})
     \* a loose t has only labels of Omega; if it has all of them h and the rest carry none: vacuum part times t
     /\ \A i \in loose : ts[i][2] + ts[i][4] = Rank(ts[i])
     /\ (c = "unlinked_disconnected") =>
          HUpperExt(h, ts) = 0 /\ HLowerExt(h, ts) = 0 /\ \E i \in loose : \A j \in DOMAIN ts : j # i => ts[j][2] + ts[j][4] = 0 /\ Connected(ts[j])
     /\ om = <<0, 0>> => c = "fully_connected"

\* Python: the einsums of a term (k > 1 t's) are the k! orders, each with the prefactor
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
Labelling == [i \in DOMAIN ts |-> <<ts[i][1], ts[i][2], IF ts[i][2] = 0 THEN 0 ELSE 1 + HUpperExt(h, ts) + SumOf(SubSeq(ts, 1, i - 1), 2)>>]
Written == (Ground /\ Closed(b) /\ Len(ts) > 1) =>
  LET lab == Labelling
      seen == {[i \in DOMAIN ts |-> lab[q[i]]] : q \in Perms(DOMAIN ts)}
  IN /\ \A a \in seen : TermOf(<<h[1], h[2], a>>) = <<h, ts>>
     /\ \A a \in seen : Cardinality(seen) = Orders(<<h[1], h[2], a>>)
     /\ \A a \in seen : Cardinality(seen) * Same(<<h[1], h[2], a>>) = Fact(Len(ts))

\* a term needs a Hamiltonian and cluster truncation which includes it: monotone in both
Guards == Closed(b) => HGuard(<<h, ts>>) <= MaxH /\ TGuard(<<h, ts>>) <= MaxCC
============================================================================
