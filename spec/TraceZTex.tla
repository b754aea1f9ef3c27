----------------------------- MODULE TraceZTex -----------------------------
(* Conformance of the z_t and eT_z_t equations written as LaTeX.
   Data.eqs: one equation (projection) each:
     om, side, first, deltas, terms |-> printed terms, fifth |-> printed products dt z,
     lhs |-> labels of the z that is differentiated, head |-> labels of the amplitude equation beside it.
   term == [c, f, g, one |-> number of unit factors, d |-> what is differentiated, s |-> the t's are conjugate s's,
            h |-> <<upper, lower>>, ts, z]; label == <<colour, code>>: b, m summed, r projected. *)
EXTENDS HZAnsatz, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Cl(c, d) == [c |-> c, d |-> d]
Rng(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(Rng(s)) = Len(s)
Coloured(s, c) == SelectSeq(s, LAMBDA x : x[1] = c)
Codes(s) == [i \in DOMAIN s |-> s[i][2]]
Of(s, c) == Codes(Coloured(s, c))
RECURSIVE ConcatAll(_)
ConcatAll(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o ConcatAll(Tail(s))
TL(x, c) == ConcatAll([i \in DOMAIN x.ts |-> Of(x.ts[i].l, c)])

Name(x) == <<Len(TL(x, "b")), Len(TL(x, "m")), Len(x.h.u), Len(x.h.l), Len(Of(x.h.l, "b")), Len(x.z.u)>>
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Data.eqs |-> [j \in DOMAIN Data.eqs[i].terms |-> Name(Data.eqs[i].terms[j])]]))
ASSUME TLCSet(2, TLCEval([x \in {<<e.om, e.H, e.CC, e.eT, e.side>> : e \in Rng(Data.eqs)} |->
                IF x[5] = "LHS" THEN ZLhsTerms(x[1], x[2], x[3], x[4]) ELSE ZTerms(x[1], x[2], x[3], x[4])]))
Expected(e) == TLCGet(2)[<<e.om, e.H, e.CC, e.eT, e.side>>]

LabelsOK(om, x) ==
  LET hub == Of(x.h.u, "b") hlb == Of(x.h.l, "b") zb == Of(x.z.u, "b") zm == Of(x.z.u, "m")
      hur == Of(x.h.u, "r") hlr == Of(x.h.l, "r") zr == Of(x.z.u, "r")
      tb == TL(x, "b") tm == TL(x, "m")
      colours == \A o \in {x.h, x.z} \cup Rng(x.ts) : \A y \in Rng(o.u) \cup Rng(o.l) : y[1] \in {"b", "m", "r"}
      \* projection labels y x w ... : the lower ones first
      lower == {122 - k : k \in 1..om[1]} upper == {122 - k : k \in (om[1] + 1)..(om[1] + om[2])}
  IN /\ colours
     /\ \A i \in DOMAIN x.ts : x.ts[i].u = <<>> /\ Len(x.ts[i].l) = 1 /\ x.ts[i].l[1][1] # "r"
     /\ x.z.l = <<>> /\ Of(x.h.u, "m") = <<>> /\ Of(x.h.l, "m") = <<>>
     \* every summation label occurs exactly twice, on the two operators it joins
     /\ Distinct(tb \o tm \o hlb) /\ Distinct(hub \o zm \o zb)
     /\ Rng(tb) = Rng(hub) /\ Rng(tm) = Rng(zm) /\ Rng(hlb) = Rng(zb)
     \* every projection label exactly once
     /\ Distinct(hlr \o hur \o zr)
     /\ Rng(hlr) = lower /\ Rng(hur \o zr) = upper
     /\ Rng(tb \o tm \o hlb) \cap (lower \cup upper) = {}

\* which factor is differentiated: on the left hand side h = dt/dtau, or dz/dtau where there is no h
DerivOK(e, x, nm) ==
  IF e.side = "RHS" THEN x.d = "none" /\ ~x.s /\ x.i = 0
  ELSE x.s /\ x.i = 1 /\ (IF Hm(nm) = 0 THEN x.d = "z" ELSE x.d = "t")

TermClauses(e, names) ==
  LET exp == Expected(e)
      seen == Rng(names)
  IN (IF exp \ seen = {} THEN {} ELSE {Cl("missing contractions", exp \ seen)})
     \cup {Cl("extra contraction", t) : t \in seen \ exp}
     \cup (IF Cardinality(seen) = Len(names) THEN {} ELSE {Cl("contraction printed twice", {t \in seen : Cardinality({i \in DOMAIN names : names[i] = t}) > 1})})
     \cup UNION {LET x == e.terms[i] nm == names[i]
                 IN (IF R(x.c[1], x.c[2]) = ZCoef(nm) THEN {} ELSE {Cl("wrong prefactor", <<nm, x.c>>)})
                    \cup (IF x.f = 0 /\ x.g = ZFbar(nm) THEN {} ELSE {Cl("wrong f factors", <<nm, x.f, x.g>>)})
                    \cup (IF LabelsOK(e.om, x) THEN {} ELSE {Cl("inconsistent labels", nm)})
                    \cup (IF DerivOK(e, x, nm) THEN {} ELSE {Cl("wrong factor differentiated", nm)})
                 : i \in DOMAIN e.terms}

\* names of the projection's labels in the amplitude equation: i j k ..., upper ones first
Up(om) == {104 + k : k \in 1..om[2]}
Low(om) == {104 + om[2] + k : k \in 1..om[1]}
\* -i sum over all ways to share the upper labels between dt/dtau and z; t keeps all the lower ones
FifthClauses(e) ==
  LET ok(x) == /\ Distinct(x.t.u \o x.z.u) /\ Rng(x.t.u \o x.z.u) = Up(e.om)
               /\ Distinct(x.t.l) /\ Rng(x.t.l) = Low(e.om) /\ x.z.l = <<>>
      ranks == [i \in DOMAIN e.fifth |-> Len(e.fifth[i].z.u)]
  IN (IF \A i \in DOMAIN e.fifth : ok(e.fifth[i]) THEN {} ELSE {Cl("wrong labels in the product of dt and z", e.om)})
     \cup (IF Rng(ranks) = 0..e.om[2] /\ Distinct(ranks) THEN {} ELSE {Cl("wrong products of dt and z", ranks)})

FrameClauses(e) ==
  (IF e.head.tu = e.head.gu /\ e.head.tl = e.head.gl /\ Distinct(e.head.tu) /\ Distinct(e.head.tl) /\ Rng(e.head.tu) = Up(e.om) /\ Rng(e.head.tl) = Low(e.om)
     THEN {} ELSE {Cl("wrong amplitude equation", e.om)})
  \cup IF e.side = "LHS" THEN {}
       ELSE (IF Distinct(e.lhs) /\ Rng(e.lhs) = Up(e.om) \cup Low(e.om) THEN {} ELSE {Cl("wrong left hand side", e.om)})
            \cup (IF e.first.zero = (e.om = <<0, 0>>) /\ Distinct(e.first.u) /\ Distinct(e.first.l) /\ Rng(e.first.u) = Up(e.om) /\ Rng(e.first.l) = Low(e.om)
                    THEN {} ELSE {Cl("wrong first term", e.om)})

EqClauses(i) ==
  LET e == Data.eqs[i]
  IN IF e.exc # "" THEN {Cl("raised", <<e.exc>>)}
     ELSE TermClauses(e, TLCGet(1)[i]) \cup FrameClauses(e) \cup (IF e.side = "LHS" THEN {} ELSE FifthClauses(e))

ASSUME TLCSet(5, TLCEval([i \in DOMAIN Data.eqs |-> EqClauses(i)]))
Verdicts == TLCGet(5)

Headings == <<"", "Linear", "Quadratic", "Cubic", "Quartic", "Quintic", "Sextic">>
ZClauses(T, ev) ==
  LET e == Data.eqs[ev.eq]
  IN Verdicts[ev.eq]
     \cup (IF e.H = T.H /\ e.CC = T.CC /\ e.eT = T.eT /\ (T.kind = "zhz" \/ e.side = T.side) /\ e.om \in ZOmegas(T.kind, T.CC, T.P) THEN {}
           ELSE {Cl("unexpected equation", e.om)})
     \cup (IF ev.heading = Headings[e.om[1] + e.om[2] + 1] THEN {} ELSE {Cl("wrong heading", <<ev.heading>>)})

ZClose(T, done) ==
  IF ~T.gs THEN IF T.refused THEN {} ELSE {Cl("not refused", <<>>)}
  ELSE LET got == {Data.eqs[T.events[i].eq].om : i \in DOMAIN T.events}
       IN {Cl("equation never produced", x) : x \in ZOmegas(T.kind, T.CC, T.P) \ got}
          \* these equations have no f terms; the document says so when they were to be removed
          \cup (IF T.note = T.rf THEN {} ELSE {Cl("wrong remark on f terms", <<>>)})

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- ZClauses, CloseClauses <- ZClose
===========================================================================
