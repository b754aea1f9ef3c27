----------------------------- MODULE TraceZPy -----------------------------
(* Conformance of the generated eT_z_t Python modules, right and left hand sides.  A module for the ground state
   only (gs) refuses hot bands; otherwise hot bands have the same contractions, as every operator is there for both.
   e.terms = <<einsum, numerator, denominator, least h level, least t level, least z level>>. *)
EXTENDS HZAnsatz, Einsum, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Cl(c, d) == [c |-> c, d |-> d]
Bad == <<9, 9, 9, 9, 9, 9>>

Sel(e, ks) == SelectSeq(e.o, LAMBDA x : x.k \in ks)
(* The term an einsum stands for.  Right hand side: t(i).. h(a,c,..) z(c,..) -> a..; left hand side:
   t(i).. d(..) z(c,..) -> c.., or t(i).. y(c,..) -> c.. with y = dz/dtau in place of z and no h. *)
AbsZ(e, side) ==
  LET ts == Sel(e, {"t"})
      hs == Sel(e, IF side = "RHS" THEN {"h"} ELSE {"d"})
      zs == Sel(e, IF side = "RHS" THEN {"z"} ELSE IF hs = <<>> THEN {"y"} ELSE {"z"})
      he == IF side = "RHS" THEN 2 ELSE 0
      frame == /\ Len(ts) + Len(hs) + Len(zs) = Len(e.o) /\ Len(zs) = 1 /\ Len(hs) <= 1
               /\ (side = "RHS" => Len(hs) = 1)
               /\ \A i \in DOMAIN ts : ts[i].m = 0 /\ ts[i].n = 1
               /\ zs[1].n = 0
               /\ Len(e.r) >= 1
      z == zs[1]
      h == IF hs = <<>> THEN [k |-> "d", m |-> 0, n |-> 0, l |-> <<>>] ELSE hs[1]
      hv == Rng(Vib(h.l, he)) zv == Rng(Vib(z.l, 1)) rv == Rng(Vib(e.r, 1))
      \* surfaces: h a matrix, z a vector
      elec == IF side = "RHS" THEN e.r[1] = h.l[1] /\ h.l[2] = z.l[1] /\ h.l[1] # h.l[2] ELSE e.r[1] = z.l[1]
      es == Rng(SubSeq(h.l, 1, he)) \cup {z.l[1]}
      tv == [i \in DOMAIN ts |-> ts[i].l[1]]
      hr == hv \cap rv zr == zv \cap rv
  IN IF ~frame THEN Bad
     ELSE IF /\ elec
             \* a label sits on one axis of an operand, and joins exactly two operands or an operand with the output
             /\ Distinct(h.l) /\ Distinct(z.l) /\ Distinct(e.r) /\ Distinct(tv)
             /\ es \cap (hv \cup zv \cup rv \cup Rng(tv)) = {}
             /\ Rng(tv) \subseteq (hv \cup zv) /\ Rng(tv) \cap hv \cap zv = {} /\ Rng(tv) \cap rv = {}
             /\ hv \cap zv \cap rv = {}
             /\ hv \subseteq (zv \cup rv \cup Rng(tv)) /\ zv \subseteq (hv \cup rv \cup Rng(tv)) /\ rv \subseteq (hv \cup zv)
             \* output axes: those of h, then those of z
             /\ Rng(SubSeq(e.r, 2, 1 + Cardinality(hr))) = hr
          THEN <<Cardinality(Rng(tv) \cap hv), Cardinality(Rng(tv) \cap zv), h.m, h.n, Cardinality(hv \cap zv), z.m>>
          ELSE Bad
Sides == {e.side : e \in Rng(Data.eqs)}
ASSUME TLCSet(1, TLCEval([s \in Sides |-> [i \in DOMAIN Data.einsums |-> AbsZ(Data.einsums[i], s)]]))
Abs(s) == TLCGet(1)[s]
ASSUME TLCSet(2, TLCEval([x \in {<<e.om, e.H, e.CC, e.eT, e.side>> : e \in Rng(Data.eqs)} |->
                IF x[5] = "LHS" THEN ZLhsTerms(x[1], x[2], x[3], x[4]) ELSE ZTerms(x[1], x[2], x[3], x[4])]))

\* the left hand side is solved for dz/dtau: that term itself is not computed
Expected(e) ==
  LET all == TLCGet(2)[<<e.om, e.H, e.CC, e.eT, e.side>>]
      some == IF e.side = "LHS" THEN {x \in all : Ta(x) + Tb(x) + Hm(x) > 0} ELSE all
  IN {x \in some : (Ta(x) + Tb(x) = 0) = (e.cls = "HZ")}

TermClauses(e) ==
  LET abs == Abs(e.side)
      exp == Expected(e)
      obs == Collect(e.terms, abs)
      seen == Keys(obs)
  IN {Cl("malformed einsum", <<Data.einsums[x[1]].o, Data.einsums[x[1]].r>>) : x \in {y \in Rng(e.terms) : abs[y[1]] = Bad}}
     \cup {Cl("missing contraction", t) : t \in exp \ seen}
     \cup {Cl("extra contraction", t) : t \in (seen \ exp) \ {Bad}}
     \cup {Cl("wrong coefficient", kc) : kc \in {x \in obs : x[1] \in exp /\ x[2] # ZCoef(x[1])}}

\* flags: h level max(m, n), t singles as soon as there is a t, z level p
GuardClauses(e) ==
  LET abs == Abs(e.side)
  IN {Cl("wrong truncation guard", <<abs[x[1]], x[4], x[5], x[6]>>) :
        x \in {y \in Rng(e.terms) : abs[y[1]] # Bad /\
               LET t == abs[y[1]] IN \/ y[4] # IMax(Hm(t), Hn(t))
                                     \/ y[5] # (IF Ta(t) + Tb(t) > 0 THEN 1 ELSE 0)
                                     \/ y[6] # Zp(t)}}

EqClauses(e) ==
  IF e.exc # "" THEN {Cl("raised", <<e.exc>>)}
  ELSE CASE e.what = "terms" -> TermClauses(e)
         [] e.what = "guards" -> GuardClauses(e)
         [] e.what = "amplitude" ->
              (IF e.sum THEN {} ELSE {Cl("amplitude is not the sum of its terms", <<>>)})
              \cup (IF e.axes = e.om[2] THEN {} ELSE {Cl("wrong shape", <<e.axes>>)})
              \* it insists on the amplitudes up to its order
              \cup (IF Rng(e.confirmed) = 1..IMax(1, e.om[2]) THEN {} ELSE {Cl("wrong truncation demanded", e.confirmed)})
              \cup (IF e.gs THEN IF e.refused THEN {} ELSE {Cl("hot band amplitudes not refused", <<>>)}
                  ELSE IF e.hot THEN {} ELSE {Cl("hot band amplitude is not the sum of its terms", <<>>)})
              \cup (IF e.optimized THEN {} ELSE {Cl("optimized amplitude differs", <<>>)})

ASSUME TLCSet(5, TLCEval([i \in DOMAIN Data.eqs |-> EqClauses(Data.eqs[i])]))
Verdicts == TLCGet(5)

ZClauses(T, ev) ==
  LET e == Data.eqs[ev.eq]
  IN Verdicts[ev.eq] \cup
     (IF e.H = T.H /\ e.CC = T.CC /\ e.eT = T.eT /\ e.side = T.side /\ e.gs = T.gs /\ e.om \in ZOmegas("eTz", T.CC, T.P) THEN {} ELSE {Cl("unexpected equation", e.om)})

ZClose(T, done) ==
  LET got == {<<Data.eqs[T.events[i].eq].om, Data.eqs[T.events[i].eq].cls>> : i \in DOMAIN T.events}
  IN {Cl("equation never produced", x) : x \in (ZOmegas("eTz", T.CC, T.P) \X Rng(T.classes)) \ got}

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- ZClauses, CloseClauses <- ZClose
===========================================================================
