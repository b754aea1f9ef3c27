--------------------------- MODULE TracePyModule ---------------------------
(* Every Python module termfactory writes is read by the machine of PyModule, definition by definition.
   A trace: [name, kind, exc, imports, alias, defs, other, events]; an event is one definition (def = index into
   Data.defs), in the order of the file; `other`: the functions of residual_equations as generated for the same order.
   The statements outside of functions are the definition "<module>". *)
EXTENDS PyModule, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Cl(c, d) == [c |-> c, d |-> d]
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Data.defs |-> ReadDef(Data.defs[i])]))
Read(i) == TLCGet(1)[i]

\* sigs: name -> <<least, largest>> number of arguments
Fits(sig, n) == sig[1] <= n /\ n <= sig[2]
Names(T) == DOMAIN T.sigs
PyClauses(T, ev) ==
  LET r == Read(ev.def)
      known == Names(T) \cup DOMAIN T.alias \cup Builtins
      \* a name bound by an import stands for a module or an object of Members
      calls(pre) == {x \in r.calls : x[1] \in DOMAIN pre}
  IN (IF T.exc = "" THEN {} ELSE {Cl("raised", <<T.exc>>)})
     \cup r.err
     \cup (IF r.st = <<>> THEN {} ELSE {Cl("structure", <<>>)})
     \cup {Cl("undefined name", <<x>>) : x \in r.free \ known}
     \cup {Cl("wrong number of arguments", x) : x \in {y \in calls(T.sigs) : ~Fits(T.sigs[y[1]], y[2])}}
     \cup {Cl("wrong number of arguments", x) : x \in {y \in calls(T.other) : ~Fits(T.other[y[1]], y[2])}}
     \cup {Cl("member which the import does not have", x) :
             x \in {y \in r.members : IF T.alias[y[1]] = "residual_equations" THEN ("residual_equations." \o y[2]) \notin DOMAIN T.other
                                      ELSE IF T.alias[y[1]] \in DOMAIN Members THEN y[2] \notin Members[T.alias[y[1]]] ELSE TRUE}}

PyClose(T, done) ==
  {Cl("import which does not exist", x) : x \in Els(T.imports) \ Importable}
  \cup (IF T.exc = "" THEN {} ELSE {Cl("raised", <<T.exc>>)})
  \cup (IF T.exc = "" /\ Names(T) = {} THEN {Cl("module defines nothing", <<>>)} ELSE {})
  \cup (IF ~Paired(T.kind) THEN {}
        ELSE {Cl("function without its counterpart", <<x>>) : x \in {y \in Els(T.default) : (y \o "_optimized") \notin Names(T)}}
             \cup {Cl("function without its counterpart", <<y \o "_optimized">>) : y \in Els(T.optimized) \ Names(T)})

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- PyClauses, CloseClauses <- PyClose
============================================================================
