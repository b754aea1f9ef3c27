---------------------------- MODULE TraceWTex ----------------------------
(* Conformance of the W operators written as LaTeX.
   W^m_n is the sum over all multisets of t^a_b, (a, b) # (0, 0), whose labels add up to (m, n), each with
   1 / (product of the factorials of the multiplicities).  The thermal document leaves out the single t
   with annihilation labels.  From two labels on the sum is symmetrized. *)
EXTENDS Einsum, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Cl(c, d) == [c |-> c, d |-> d]

\* <<types in a fixed order, first usable, what is left>> -> set of sequences
RECURSIVE Products(_, _, _)
Products(types, i, b) ==
  IF b = <<0, 0>> THEN {<<>>}
  ELSE UNION {{<<types[j]>> \o s : s \in Products(types, j, <<b[1] - types[j][1], b[2] - types[j][2]>>)} :
                j \in {x \in i..Len(types) : types[x][1] <= b[1] /\ types[x][2] <= b[2]}}

\* lexicographic order of pairs
Types(m, n) == [k \in 1..((m + 1) * (n + 1) - 1) |-> <<k \div (n + 1), k % (n + 1)>>]

RECURSIVE MultProd(_, _)
MultProd(S, p) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN Fact(Count(p, x)) * MultProd(S \ {x}, p)
Coef(p) == R(1, MultProd(Rng(p), p))

\* sort a sequence of pairs by insertion
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Insert(_, _)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF Less(Head(s), x) THEN <<Head(s)>> \o Insert(x, Tail(s)) ELSE <<x>> \o s
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sorted(Tail(s)))

ExpectedW(thermal, m, n) ==
  LET ps == Products(Types(m, n), 1, <<m, n>>)
  IN {<<p, Coef(p)>> : p \in {q \in ps : ~(thermal /\ n > 0 /\ Len(q) = 1)}}

WClauses(T, e) ==
  IF e.exc # "" THEN {Cl("raised", <<e.exc>>)}
  ELSE LET obs == [i \in DOMAIN e.terms |-> <<Sorted(e.terms[i].ts), R(e.terms[i].c[1], e.terms[i].c[2])>>]
           exp == ExpectedW(T.thermal, e.m, e.n)
       IN {Cl("extra or wrong term", x) : x \in Rng(obs) \ exp}
          \cup {Cl("missing term", x) : x \in exp \ Rng(obs)}
          \cup (IF Distinct(obs) THEN {} ELSE {Cl("term printed twice", <<>>)})
          \cup (IF e.sym = (e.m + e.n >= 2) THEN {} ELSE {Cl("symmetrization", <<e.sym>>)})

\* the operators of a document: W^0 .. W^order, and every split of the labels in the thermal one
Needed(T) == IF T.thermal THEN {<<0, 0>>} \cup {x \in (1..T.order) \X (0..T.order) : x[1] + x[2] <= T.order}
             ELSE {<<k, 0>> : k \in 0..T.order}
WClose(T, done) ==
  LET got == {<<T.events[i].m, T.events[i].n>> : i \in DOMAIN T.events}
  IN {Cl("operator never defined", x) : x \in Needed(T) \ got} \cup {Cl("unexpected operator", x) : x \in got \ Needed(T)}
     \cup (IF T.document THEN {} ELSE {Cl("not a complete document", <<>>)})
     \cup (IF T.again THEN {} ELSE {Cl("writing the file again changes it", <<>>)})

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- WClauses, CloseClauses <- WClose
===========================================================================
