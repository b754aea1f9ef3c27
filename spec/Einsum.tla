------------------------------ MODULE Einsum ------------------------------
(* Reading an einsum call.  A call is  [o |-> <<operand, ...>>, r |-> output labels]  with
   operand == [k |-> kind, m |-> upper rank, n |-> lower rank, l |-> labels].
   Labels are integers; only their identity matters. *)
EXTENDS Rat

Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Distinct(s) == Cardinality(Rng(s)) = Len(s)
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))

\* vibrational (normal mode) labels: what is left after e electronic labels
Vib(l, e) == SubSeq(l, e + 1, Len(l))

(* Electronic surfaces multiply like matrices: a call over operands with two electronic axes is a
   chain  X1(a,c) X2(c,d) ... Xk(e,b) -> (a,b).  Chain returns the operand indices in matrix order,
   or <<>> if the electronic labels do not form exactly one such chain. *)
RECURSIVE Follow(_, _, _)
Follow(ops, lab, used) ==
  LET next == {i \in DOMAIN ops : Len(ops[i].l) >= 2 /\ i \notin used /\ ops[i].l[1] = lab}
  IN IF Cardinality(next) # 1 THEN <<>>
     ELSE LET i == CHOOSE j \in next : TRUE IN <<i>> \o Follow(ops, ops[i].l[2], used \cup {i})

Chain(e) ==
  IF Len(e.r) < 2 \/ \E i \in DOMAIN e.o : Len(e.o[i].l) < 2 THEN <<>>
  ELSE LET c == Follow(e.o, e.r[1], {})
           firsts == {e.o[i].l[1] : i \in DOMAIN e.o}
           lasts == {e.o[i].l[2] : i \in DOMAIN e.o}
       IN IF /\ Len(c) = Len(e.o) /\ c # <<>>
             /\ e.o[c[Len(c)]].l[2] = e.r[2]
             /\ e.r[1] # e.r[2]
             /\ Cardinality(firsts) = Len(e.o) /\ Cardinality(lasts) = Len(e.o)
             /\ e.r[1] \notin lasts /\ e.r[2] \notin firsts
             \* electronic labels never double as normal mode labels
             /\ \A i \in DOMAIN e.o : Rng(Vib(e.o[i].l, 2)) \cap (firsts \cup lasts) = {}
             /\ Rng(Vib(e.r, 2)) \cap (firsts \cup lasts) = {}
          THEN c ELSE <<>>

(* Observed tables are sequences of <<einsum index, numerator, denominator>>.  abs[i] is the abstract
   term of einsum i.  Collect adds up the coefficients of einsums with the same meaning. *)
Collect(tab, abs) ==
  LET keys == {abs[tab[i][1]] : i \in DOMAIN tab}
      coef(k) == LET sel == SelectSeq(tab, LAMBDA x : abs[x[1]] = k)
                 IN RSumSeq([j \in DOMAIN sel |-> R(sel[j][2], sel[j][3])])
  IN IF Cardinality(keys) = Len(tab)
     THEN {<<abs[tab[i][1]], R(tab[i][2], tab[i][3])>> : i \in DOMAIN tab}
     ELSE {kc \in {<<k, coef(k)>> : k \in keys} : kc[2] # RZero}

Keys(tab) == {kc[1] : kc \in tab}
CoefOf(tab, k) == (CHOOSE kc \in tab : kc[1] = k)[2]

(* Compare an observed with an expected table: one clause per difference. *)
Diff(obs, exp) ==
  {[c |-> "extra term", d |-> kc] : kc \in {x \in obs : x[1] \notin Keys(exp)}} \cup
  {[c |-> "missing term", d |-> kc] : kc \in {x \in exp : x[1] \notin Keys(obs)}} \cup
  {[c |-> "wrong coefficient", d |-> <<kc[1], kc[2], "expected", CoefOf(exp, kc[1])>>] :
        kc \in {x \in obs : x[1] \in Keys(exp) /\ x \notin exp}}
===========================================================================
