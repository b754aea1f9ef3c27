---------------------------- MODULE TraceFccPy ----------------------------
(* Conformance of the generated full CC Python modules (ground state).
   Equation: one function of a generated module, executed.  e.terms = <<einsum, numerator, denominator,
   least h level, least t level>> (levels 99: the term does not depend on the flags monotonically). *)
EXTENDS FullCC, FiniteSetsExt, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Data.einsums |-> AbsFcc(Data.einsums[i])]))
Abs == TLCGet(1)
\* per einsum: the term it belongs to, its t's with their output axes, the number of orders of those t's
ASSUME TLCSet(2, TLCEval([i \in DOMAIN Abs |-> IF Abs[i] = BadEinsum THEN <<>> ELSE <<TermOf(Abs[i]), Labelled(Abs[i]), Orders(Abs[i])>>]))
Info == TLCGet(2)

Cl(c, d) == [c |-> c, d |-> d]

\* terms by h, projection, cc and s: shared by all equations of the shard
Cells == {<<<<m, n>>, e.om, e.CC, e.S>> : m \in 0..6, n \in 0..6, e \in Rng(Data.eqs)}
ASSUME TLCSet(3, TLCEval([cc \in {e.CC : e \in Rng(Data.eqs)} |-> TypeSeq(cc, TRUE)]))
TypesOf == TLCGet(3)
ASSUME TLCSet(4, TLCEval([x \in {y \in Cells : y[1][1] + y[1][2] <= 6 /\ y[2][1] = 0} |->
                       TermsWith(x[1], TypesOf[x[3]], x[4], x[2])]))
TermTable == TLCGet(4)
AllTerms(e) == UNION {TermTable[<<h, e.om, e.CC, e.S>>] : h \in HOps(e.H)}
TermsOfClass(e) == {t \in AllTerms(e) : Class(e.om, t[2]) = e.cls}

\* contractions and prefactors
TermClauses(e) ==
  LET exp == TermsOfClass(e)
      obs == Collect(e.terms, Abs)
      ids == {e.terms[i][1] : i \in DOMAIN e.terms}
      good == {i \in ids : Abs[i] # BadEinsum}
      keys == {Abs[i] : i \in good}
      seen == {Info[i][1] : i \in good}
      labelled == {Info[i] : i \in good}
      of(t) == {Abs[i] : i \in {x \in good : Info[x][1] = t}}
      total == FoldSet(LAMBDA x, y : x[3] + y, 0, labelled)
      regular == Cardinality(labelled) = Cardinality(seen) /\ total = Cardinality(keys)
  IN IF e.om[1] > 0   \* projections with annihilation labels have no ground state terms here
     THEN IF e.terms = <<>> THEN {} ELSE {Cl("extra contraction", seen)}
     ELSE (IF good # ids THEN {Cl("malformed einsum", <<>>)} ELSE {})
          \cup {Cl("missing contraction", t) : t \in exp \ seen}
          \cup {Cl("extra contraction", t) : t \in seen \ exp}
          \cup (IF regular THEN {}
                ELSE {Cl("inconsistent labels", t) : t \in {x \in seen : Cardinality({i \in labelled : i[1] = x}) # 1}}
                     \cup {Cl("missing order", t) : t \in {x \in seen : \E k \in of(x) : Cardinality(of(x)) # Orders(k)}})
          \cup {Cl("wrong coefficient", <<kc[1], kc[2]>>) :
                   kc \in {x \in obs : x[1] # BadEinsum /\ x[2] # EinsumCoef(e.om, x[1])}}

\* truncation flags
GuardClauses(e) ==
  {Cl("wrong truncation guard", <<Abs[x[1]], x[4], x[5]>>) :
      x \in {y \in Rng(e.terms) : Abs[y[1]] # BadEinsum /\
                LET t == Info[y[1]][1] IN y[4] # HGuard(t) \/ y[5] # TGuard(t)}}

\* the optimized functions: same sum, read off operand by operand
Shadow(tab) == {<<x[1], x[2], R(x[3], x[4])>> : x \in Rng(tab)}

OptClauses(e) ==
  LET d == Shadow(e.default) o == Shadow(e.optimized)
  IN {Cl("optimized function lacks", x) : x \in d \ o} \cup {Cl("optimized function adds", x) : x \in o \ d}
     \* every contraction path belongs to one contraction
     \cup {Cl("contraction paths not used exactly once", x) : x \in Rng(e.idle)}

EqClauses(e) ==
  IF e.what = "paths"
  THEN (IF e.exc # "" THEN {Cl("raised", <<e.exc>>)} ELSE {})
       \cup (IF e.unlabelled THEN {Cl("contraction path without subscripts", <<>>)} ELSE {})
  ELSE IF e.exc # "" THEN {Cl("raised", <<e.exc>>)}
  ELSE CASE e.what = "terms" -> TermClauses(e)
         [] e.what = "guards" -> GuardClauses(e)
         [] e.what = "optimized" -> OptClauses(e)
         [] e.what = "amplitude" ->
              \* the amplitude is the sum of its three classes, of the right shape, and confirms the truncation
              (IF e.sum THEN {} ELSE {Cl("amplitude is not the sum of its terms", <<>>)})
              \cup (IF e.axes = e.om[1] + e.om[2] THEN {} ELSE {Cl("wrong shape", <<e.axes>>)})

ASSUME TLCSet(5, TLCEval([i \in DOMAIN Data.eqs |-> EqClauses(Data.eqs[i])]))
Verdicts == TLCGet(5)

FccClauses(T, ev) ==
  LET e == Data.eqs[ev.eq]
  IN Verdicts[ev.eq] \cup
     (IF e.H = T.H /\ e.CC = T.CC /\ e.S = T.S /\ e.om \in OmegaOps(T.CC, T.P) THEN {} ELSE {Cl("unexpected equation", e.om)})

Classes == {"fully_connected", "linked_disconnected", "unlinked_disconnected"}
FccClose(T, done) ==
  LET got == {<<Data.eqs[T.events[i].eq].om, Data.eqs[T.events[i].eq].cls>> : i \in DOMAIN T.events}
      need == OmegaOps(T.CC, T.P) \X Rng(T.classes)
  IN {Cl("equation never produced", x) : x \in need \ got}

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- FccClauses, CloseClauses <- FccClose
===========================================================================
