------------------------------ MODULE TraceW ------------------------------
(* Conformance of the generated W operator, residual and dt-amplitude modules.
   Event: what executing one generated function under one setting yields. *)
EXTENDS WAnsatz, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)

Abstract(kind, e) ==
  CASE kind = "w" -> AbsW(e) [] kind = "dt" -> AbsDt(e) [] kind = "residual" -> AbsResidual(e)

\* Data.einsums[i] is used by events of one kind only
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Data.einsums |-> Abstract(Data.einsums[i].kind, Data.einsums[i])]))
Abs == TLCGet(1)

Expected(T, e) ==
  CASE T.kind = "w" -> ExpectedW(e.n, e.ansatz, e.level)
    [] T.kind = "dt" -> ExpectedDt(e.n, e.ansatz, e.level)
    [] T.kind = "residual" -> ExpectedResidual(e.n, T.hmax, e.ws, e.quadratic)

\* settings for which the function has to refuse to calculate anything
MustRefuse(T, e) ==
  CASE T.kind = "w" /\ e.what = "all" -> e.level = 0 \/ e.level >= 5
    [] T.kind = "dt" -> e.what = "solve" /\ e.level < e.n
    [] T.kind = "residual" -> e.level < IMax(e.n, 1)
    [] OTHER -> FALSE

NeedsSym(T, e) == T.kind \in {"w", "dt"} /\ e.n >= 2

\* `compute all W operators` returns W_1..W_{level+2} (never less than three) and nothing beyond
Present(level) == IMin(IMax(level + 2, 3), 6)

WClauses(T, e) ==
  IF MustRefuse(T, e)
  THEN IF e.exc = "" THEN {[c |-> "calculated although the truncation forbids it", d |-> <<e.key>>]} ELSE {}
  ELSE IF e.exc # "" THEN {[c |-> "raised", d |-> <<e.exc>>]}
  ELSE IF e.what = "all" /\ e.n > Present(e.level)
  THEN IF e.present THEN {[c |-> "extra operator", d |-> <<e.n>>]} ELSE {}
  ELSE IF ~e.present THEN {[c |-> "missing operator", d |-> <<e.n>>]}
  ELSE LET obs == Collect(e.terms, Abs)
       IN Diff(obs, Expected(T, e))
          \cup (IF NeedsSym(T, e) /\ e.sym # e.n THEN {[c |-> "not symmetrized", d |-> <<e.n, e.sym>>]} ELSE {})
          \cup (IF e.axes # e.n THEN {[c |-> "wrong shape", d |-> <<e.n, e.axes>>]} ELSE {})

WClose(T, done) ==
  LET need == Rng(T.required)
  IN IF need \subseteq done THEN {} ELSE {[c |-> "equation never produced", d |-> need \ done]}

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- WClauses, CloseClauses <- WClose
===========================================================================
