------------------------------ MODULE PyModule ------------------------------
(* When a generated Python module is complete: the machine that reads one definition, token by token, following
   which variables are assigned on every path, and what a module must define for its definitions to run.

   Tokens:  use x / bind x            a name is read / assigned
            if .. else .. fi          two paths (a missing else branch is an empty one)
            for .. rof                a path that may be taken or not (loops, handlers, comprehensions)
            leave                     return or raise
            call f n                  a function of this or another module ("residual_equations.f") called with n arguments
            member m a                attribute a of the imported module m
            einsum ins out n          a contraction: labels of its inputs, of its output, number of operands
   A definition: [key, params, required, locals, toks]; `locals` are all names it assigns. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Fresh == [D |-> {}, dead |-> FALSE, st |-> <<>>, err |-> {}, free |-> {}, calls |-> {}, members |-> {}]
Begin(d) == [Fresh EXCEPT !.D = {d.params[i] : i \in DOMAIN d.params}]
Bad(q, c, x) == [q EXCEPT !.err = @ \cup {[c |-> c, d |-> x]}]

Top(q) == q.st[Len(q.st)]
Pop(q) == SubSeq(q.st, 1, Len(q.st) - 1)
Els(s) == {s[i] : i \in DOMAIN s}

EinsumFaults(t) ==
    LET ins == UNION {Els(t[2][i]) : i \in DOMAIN t[2]}
    IN (IF Len(t[2]) = t[4] THEN {} ELSE {"operands and subscripts differ in number"})
       \cup (IF Els(t[3]) \subseteq ins THEN {} ELSE {"output label of no operand"})
       \cup (IF Cardinality(Els(t[3])) = Len(t[3]) THEN {} ELSE {"output label repeated"})

Step(q, t, loc) ==
    CASE t[1] = "use" ->
           IF q.dead THEN q
           ELSE IF t[2] \notin loc THEN [q EXCEPT !.free = @ \cup {t[2]}]
           ELSE IF t[2] \in q.D THEN q
           ELSE Bad(q, "variable not assigned on every path to its use", <<t[2]>>)
      [] t[1] = "bind" -> [q EXCEPT !.D = @ \cup {t[2]}]
      [] t[1] = "if" -> [q EXCEPT !.st = Append(@, [k |-> "if", D |-> q.D, dead |-> q.dead, D1 |-> {}, dead1 |-> TRUE])]
      [] t[1] = "else" ->
           IF q.st = <<>> THEN Bad(q, "structure", t)
           ELSE [q EXCEPT !.st = Append(Pop(q), [Top(q) EXCEPT !.k = "else", !.D1 = q.D, !.dead1 = q.dead]),
                          !.D = Top(q).D, !.dead = Top(q).dead]
      [] t[1] = "fi" ->
           IF q.st = <<>> \/ (q.st # <<>> /\ Top(q).k # "else") THEN Bad(q, "structure", t)
           ELSE LET f == Top(q)
                IN [q EXCEPT !.st = Pop(q), !.dead = q.dead /\ f.dead1,
                             !.D = IF q.dead THEN f.D1 ELSE IF f.dead1 THEN q.D ELSE q.D \cap f.D1]
      [] t[1] = "for" -> [q EXCEPT !.st = Append(@, [k |-> "for", D |-> q.D, dead |-> q.dead, D1 |-> {}, dead1 |-> TRUE])]
      [] t[1] = "rof" ->
           IF q.st = <<>> THEN Bad(q, "structure", t)
           ELSE [q EXCEPT !.st = Pop(q), !.D = Top(q).D, !.dead = Top(q).dead]
      [] t[1] = "leave" -> [q EXCEPT !.dead = TRUE]
      [] t[1] = "call" -> [q EXCEPT !.calls = @ \cup {<<t[2], t[3]>>}]
      [] t[1] = "member" -> [q EXCEPT !.members = @ \cup {<<t[2], t[3]>>}]
      [] t[1] = "einsum" -> LET f == EinsumFaults(t) IN IF f = {} THEN q ELSE [q EXCEPT !.err = @ \cup {[c |-> x, d |-> t] : x \in f}]
      [] OTHER -> Bad(q, "structure", t)

ReadDef(d) == LET loc == Els(d.locals) \cup Els(d.params)
              IN FoldLeft(LAMBDA q, t : Step(q, t, loc), Begin(d), d.toks)

(* ---- the surroundings of a generated module ---- *)
Builtins == {"abs", "all", "any", "bool", "complex", "dict", "enumerate", "float", "getattr", "hasattr", "int", "isinstance", "iter", "len",
             "list", "map", "max", "min", "next", "object", "print", "range", "repr", "reversed", "round", "set", "slice", "sorted", "str",
             "sum", "super", "tuple", "type", "zip", "Exception", "NotImplementedError", "AssertionError", "ValueError", "TypeError",
             "KeyError", "IndexError", "RuntimeError", "StopIteration", "ArithmeticError"}
\* <<module, name>>: what a generated module may import; "" is the module itself
Importable == {<<"math", "factorial">>, <<"math", "">>, <<"numpy", "">>, <<"opt_einsum", "">>, <<".symmetrize", "symmetrize_tensor">>,
               <<"..log_conf", "log">>, <<".", "residual_equations">>}
Members == [numpy |-> {"einsum", "zeros", "zeros_like", "empty", "ones", "array", "asarray", "eye", "sum", "add", "transpose", "tensordot",
                       "dot", "matmul", "multiply", "complex128", "float64", "newaxis", "ndarray", "allclose", "isnan", "conj", "conjugate"},
            opt_einsum |-> {"contract", "contract_expression", "contract_path"},
            math |-> {"factorial", "comb", "perm", "prod", "sqrt"},
            symmetrize_tensor |-> {}, log |-> {"debug", "info", "warning", "error", "critical", "log", "flow"}, factorial |-> {}]

\* kinds of module whose every default function has an optimized counterpart
Paired(kind) == kind \in {"w", "dt", "fcc", "eTz"}
============================================================================
