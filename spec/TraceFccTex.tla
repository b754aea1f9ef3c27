---------------------------- MODULE TraceFccTex ----------------------------
(* Conformance of the full CC equations written as LaTeX.
   Data.terms: the distinct printed terms, [c |-> <<numerator, denominator>>, f, g |-> powers of f and fbar,
   h |-> operator, ts |-> operators], operator == [u |-> upper labels, l |-> lower labels], label ==
   <<colour, code>> (colour b: summed, r: belongs to the projection).
   Data.eqs: one sum (projection, class) or one left hand side each; Data.check selects the property. *)
EXTENDS FullCC, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Cl(c, d) == [c |-> c, d |-> d]

Coloured(s, c) == SelectSeq(s, LAMBDA x : x[1] = c)
NumOf(s, c) == Len(Coloured(s, c))
TType(t) == <<NumOf(t.u, "b"), NumOf(t.u, "r"), NumOf(t.l, "b"), NumOf(t.l, "r")>>
TexTerm(x) == <<<<Len(x.h.u), Len(x.h.l)>>, Sorted([i \in DOMAIN x.ts |-> TType(x.ts[i])])>>
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Data.terms |-> TexTerm(Data.terms[i])]))
Abs == TLCGet(1)

\* terms by h, projection, cc, s and ground: shared by the equations of the shard
Params == {<<e.om, e.CC, e.S, e.gs>> : e \in {x \in Rng(Data.eqs) : x.what = "rhs"}}
TopH == MaxSeq([i \in DOMAIN Data.eqs |-> Data.eqs[i].H])
Keyset == {<<h, p[1], p[2], p[3], p[4]>> : h \in HOps(TopH), p \in Params}
ASSUME TLCSet(2, TLCEval([x \in {<<p[2], p[4]>> : p \in Params} |-> TypeSeq(x[1], x[2])]))
ASSUME TLCSet(3, TLCEval([x \in (IF Data.check = "terms" THEN Keyset ELSE {}) |->
                            TermsWith(x[1], TLCGet(2)[<<x[3], x[5]>>], x[4], x[2])]))
TermTable == TLCGet(3)

Expected(e) ==
  LET all == UNION {TermTable[<<h, e.om, e.CC, e.S, e.gs>>] : h \in HOps(e.H)}
  IN {t \in all : Class(e.om, t[2]) = e.cls /\ (e.rf => HLowerExt(t[1], t[2]) = 0)}

\* --- C06: which contractions appear, in which class
TermClauses(e) ==
  LET exp == Expected(e)
      seen == {Abs[i] : i \in Rng(e.terms)}
      missing == exp \ seen
      extra == seen \ exp
  IN (IF missing # {} THEN {Cl("missing contractions", missing)} ELSE {})
     \cup {Cl("extra contraction", t) : t \in extra}
     \cup (IF Cardinality(seen) = Len(e.terms) THEN {} ELSE {Cl("contraction printed twice", {t \in seen : Cardinality({i \in DOMAIN e.terms : Abs[e.terms[i]] = t}) > 1})})

\* --- C07: rational prefactor and powers of f and fbar
CoefClauses(e) ==
  UNION {LET x == Data.terms[i] a == Abs[i] IN
         (IF R(x.c[1], x.c[2]) = Prefactor(a[1], a[2]) THEN {} ELSE {Cl("wrong prefactor", <<a, x.c>>)})
         \cup (IF x.f = HLowerExt(a[1], a[2]) /\ x.g = HUpperExt(a[1], a[2]) THEN {} ELSE {Cl("wrong f factors", <<a, x.f, x.g>>)})
         : i \in Rng(e.terms)}

\* --- C08: labels
Codes(s) == [i \in DOMAIN s |-> s[i][2]]
AllOf(x, part, c) ==   \* labels of colour c in the upper ("u") or lower ("l") scripts, h first
  LET sel(o) == Codes(Coloured(IF part = "u" THEN o.u ELSE o.l, c))
  IN ConcatAll(<<sel(x.h)>> \o [i \in DOMAIN x.ts |-> sel(x.ts[i])])
LabelsOK(om, x) ==
  LET ru == AllOf(x, "u", "r") rl == AllOf(x, "l", "r")
      hbu == Codes(Coloured(x.h.u, "b")) hbl == Codes(Coloured(x.h.l, "b"))
      noh == [x EXCEPT !.h = [u |-> <<>>, l |-> <<>>]]
      tbu == AllOf(noh, "u", "b") tbl == AllOf(noh, "l", "b")
      only == \A o \in {x.h} \cup Rng(x.ts) : \A y \in Rng(o.u) \cup Rng(o.l) : y[1] \in {"b", "r"}
  IN /\ only
     \* the projection's labels: each exactly once; creation labels up, annihilation labels down
     /\ Len(ru) = om[2] /\ Len(rl) = om[1] /\ Distinct(ru \o rl)
     \* in every term the same names, z y x ...
     /\ Rng(ru \o rl) = {123 - k : k \in 1..(om[1] + om[2])}
     \* summation: each label joins h with exactly one t, lower with upper
     /\ Distinct(hbu \o hbl) /\ Distinct(tbu \o tbl)
     /\ Rng(hbu) = Rng(tbl) /\ Rng(hbl) = Rng(tbu)
     /\ Rng(hbu \o hbl) \cap Rng(ru \o rl) = {}
LabelClauses(e) == {Cl("inconsistent labels", Data.terms[i]) : i \in {j \in Rng(e.terms) : ~LabelsOK(e.om, Data.terms[j])}}

\* --- C09: left hand sides: i( sum of d/dtau (product of t's) + sum of (product of t's) epsilon )
\* e.lhs = <<[d |-> position of the derivative or 0 for epsilon, ts |-> <<[u, l], ...>>], ...>>
LhsTypes(om) == Sorted(SetToSeq({x \in (0..om[2]) \X (0..om[1]) : x[1] + x[2] > 0}))
RECURSIVE LhsSel(_, _, _)
LhsSel(types, i, b) ==
  IF b = <<0, 0>> THEN {<<>>}
  ELSE UNION {{<<types[j]>> \o s : s \in LhsSel(types, j, <<b[1] - types[j][1], b[2] - types[j][2]>>)} :
                j \in {x \in i..Len(types) : types[x][1] <= b[1] /\ types[x][2] <= b[2]}}
LhsExpected(om) ==
  IF om = <<0, 0>> THEN {<<0, 0, <<>>>>}   \* epsilon alone
  ELSE LET ps == LhsSel(LhsTypes(om), 1, <<om[2], om[1]>>)
       \* <<sort, multiplicity, product>>: as many derivative terms as there are t's
       IN {<<1, Len(p), p>> : p \in ps} \cup {<<0, 1, p>> : p \in ps}
LhsShape(x) == Sorted([i \in DOMAIN x.ts |-> <<Len(x.ts[i].u), Len(x.ts[i].l)>>])
LhsClauses(e) ==
  LET shape == [i \in DOMAIN e.lhs |-> <<IF e.lhs[i].d = 0 THEN 0 ELSE 1, LhsShape(e.lhs[i])>>]
      seen == {shape[i] : i \in DOMAIN shape}
      mult(s) == Count(shape, s)
      exp == LhsExpected(e.om)
      labels(x) == ConcatAll([i \in DOMAIN x.ts |-> Codes(x.ts[i].u) \o Codes(x.ts[i].l)])
      \* the derivative visits every factor: distinct positions among the terms of one product
      posn(s) == {e.lhs[i].d : i \in {j \in DOMAIN e.lhs : shape[j] = s}}
      bad == {i \in DOMAIN e.lhs : ~(Distinct(labels(e.lhs[i])) /\ Rng(labels(e.lhs[i])) = {104 + k : k \in 1..(e.om[1] + e.om[2])})}
  IN IF e.om = <<0, 0>> THEN IF e.lhs = <<>> \/ \E i \in DOMAIN e.lhs : e.lhs[i].ts # <<>> \/ e.lhs[i].d # 0 \/ Len(e.lhs) # 1
                             THEN {Cl("wrong left hand side", <<>>)} ELSE {}
     ELSE {Cl("missing on the left hand side", x) : x \in {y \in exp : <<y[1], y[3]>> \notin seen}}
          \cup {Cl("extra on the left hand side", s) : s \in {y \in seen : ~\E x \in exp : x[1] = y[1] /\ x[3] = y[2]}}
          \cup {Cl("wrong number on the left hand side", x) :
                   x \in {y \in exp : <<y[1], y[3]>> \in seen /\ mult(<<y[1], y[3]>>) # y[2]}}
          \cup {Cl("derivative misses a factor", x) :
                   x \in {y \in exp : y[1] = 1 /\ <<y[1], y[3]>> \in seen /\ posn(<<y[1], y[3]>>) # 1..Len(y[3])}}
          \cup {Cl("inconsistent labels on the left hand side", e.lhs[i]) : i \in bad}

Headings == <<"", "Linear", "Quadratic", "Cubic", "Quartic", "Quintic", "Sextic">>
EqClauses(e) ==
  IF e.exc # "" THEN {Cl("raised", <<e.exc>>)}
  ELSE CASE Data.check = "terms" /\ e.what = "rhs" -> TermClauses(e)
         [] Data.check = "coef" /\ e.what = "rhs" -> CoefClauses(e)
         [] Data.check = "labels" /\ e.what = "rhs" -> LabelClauses(e)
         [] Data.check = "lhs" /\ e.what = "lhs" -> LhsClauses(e)
         [] OTHER -> {}

ASSUME TLCSet(5, TLCEval([i \in DOMAIN Data.eqs |-> EqClauses(Data.eqs[i])]))
Verdicts == TLCGet(5)

\* the specification has no condensed form for projections of rank four and more: it must be refused
Supported(T) == IMin(T.CC, T.P) <= 3

FccClauses(T, ev) ==
  LET e == Data.eqs[ev.eq]
  IN IF ev.refused THEN {}
     ELSE Verdicts[ev.eq]
          \cup (IF e.H = T.H /\ e.CC = T.CC /\ e.S = T.S /\ e.gs = T.gs /\ e.rf = T.rf /\ e.om \in OmegaOps(T.CC, T.P) THEN {}
                ELSE {Cl("unexpected equation", e.om)})
          \cup (IF ev.heading = Headings[e.om[1] + e.om[2] + 1] THEN {} ELSE {Cl("wrong heading", <<ev.heading>>)})

FccClose(T, done) ==
  IF ~Supported(T) THEN IF T.refused THEN {} ELSE {Cl("not refused", <<>>)}
  ELSE LET evs == {T.events[i] : i \in DOMAIN T.events}
           got == {<<Data.eqs[v.eq].om, Data.eqs[v.eq].cls>> : v \in evs}
           need == OmegaOps(T.CC, T.P) \X Rng(T.classes)
       IN {Cl("equation never produced", x) : x \in need \ got}

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- FccClauses, CloseClauses <- FccClose
===========================================================================
