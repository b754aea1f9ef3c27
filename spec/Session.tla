----------------------------- MODULE Session -----------------------------
(* What a user sees of termfactory between commands: truncation files and equation files.

   State:  store : path -> contents of a truncation (JSON) file
           out   : file name -> the request whose equations the file holds ("none": no such file)
   A command is a run of driver.py or a call of one of the library functions.  `Effect(cmd, store, out)`
   is its one allowed outcome: whether it succeeds, and the state afterwards.  A refused command changes
   nothing, except that a refused `-t` run leaves ../truncs.json unspecified (the driver may or may not
   have saved the truncation already).  The outcome depends on the command and the state only: not on
   earlier commands, on options used before, or on what stale files contain. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

KeySeq == [zhz |-> <<"H", "CC", "P">>, fcc |-> <<"H", "CC", "S", "P">>, eTz |-> <<"H", "CC", "T", "eT", "P">>]
Kinds == {"zhz", "fcc", "eTz"}
Max == [H |-> 6, CC |-> 6, S |-> 6, P |-> 6, T |-> 1, eT |-> 8]
Known == DOMAIN Max
KeySet(k) == {KeySeq[k][i] : i \in DOMAIN KeySeq[k]}
AnsatzOf == [fcc |-> "full cc", zhz |-> "z_t ansatz", eTz |-> "eT_z_t ansatz"]

(* ---- truncations ---- *)
KindOfSize(n) == CASE n = 3 -> "zhz" [] n = 4 -> "fcc" [] n = 5 -> "eTz" [] OTHER -> "none"
KindOf(d) == KindOfSize(Cardinality(DOMAIN d))
InRange(k, v) == 1 <= v /\ v <= Max[k]
Valid(kind, d) == \A k \in KeySet(kind) : k \in DOMAIN d /\ InRange(k, d[k])
Zip(kind, t) == [k \in KeySet(kind) |-> t[CHOOSE i \in DOMAIN t : KeySeq[kind][i] = k]]

None == [k |-> "none", d |-> <<>>]
Junk == [k |-> "junk", d |-> <<>>]
Directory == [k |-> "dir", d |-> <<>>]       \* something that cannot be written
Unspecified == [k |-> "unspecified", d |-> <<>>]
File(d) == [k |-> "dict", d |-> d]
Loadable(c) == /\ c.k = "dict" /\ DOMAIN c.d \subseteq Known
               /\ KindOf(c.d) # "none" /\ Valid(KindOf(c.d), c.d)

(* ---- requests for equations ---- *)
(* [lang, kind, d, gs, rf, side] *)
Supported(q) == /\ KindOf(q.d) = q.kind /\ Valid(q.kind, q.d)
                /\ ~(q.lang = "py" /\ q.kind = "zhz")                    \* never implemented
                /\ ~(q.lang = "tex" /\ q.kind # "fcc" /\ ~q.gs)         \* hot bands are not implemented
                /\ ~(q.lang = "tex" /\ q.kind = "fcc" /\ q.d["CC"] >= 4 /\ q.d["P"] >= 4)   \* condensing is not implemented

Gs(q) == IF q.gs THEN "ground_state_" ELSE ""
NoF(q) == IF q.rf THEN "_no_f_terms" ELSE ""
N(q, k) == ToString(q.d[k])
FileName(q) ==
    IF q.lang = "tex"
    THEN Gs(q) \o (CASE q.kind = "fcc" -> "full_cc_" [] q.kind = "zhz" -> "z_t_" [] OTHER -> "eT_z_t_")
         \o (IF q.side = "RHS" THEN "symmetric_equations" ELSE "special_LHS_terms") \o NoF(q) \o ".tex"
    ELSE IF q.kind = "fcc"
    THEN Gs(q) \o "full_cc_" \o (IF q.side = "RHS" THEN "equations" ELSE "special_LHS_equations") \o NoF(q) \o ".py"
    ELSE "eT_zhz_eqs_" \o q.side \o "_H(" \o N(q, "H") \o ")_P(" \o N(q, "P") \o ")_T(" \o N(q, "T") \o ")_exp("
         \o N(q, "eT") \o ")_Z(" \o N(q, "CC") \o ").py"

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Holds(q) == [k |-> "equations", q |-> q]
Stale == [k |-> "stale", q |-> <<>>]        \* text of some other program
Headed == [k |-> "headed", q |-> <<>>]      \* a LaTeX document of the user
Blocked == [k |-> "blocked", q |-> <<>>]    \* something that cannot be written
CanWrite(o, f) == f \notin DOMAIN o \/ o[f].k # "blocked"
Outcome(ok, st, o, r) == [ok |-> ok, store |-> st, out |-> o, ret |-> r]
Refused(st, o) == Outcome(FALSE, st, o, <<>>)
Write(q, st, o) == Outcome(TRUE, st, Put(o, FileName(q), Holds(q)), <<>>)

(* ---- driver.py ---- *)
(* [op |-> "cli", t, p, a, es, rf, c, lhs, log]; t = <<>> / p = "" / a = "" / rf = "": option not given *)
Saved == "../truncs.json"
RfTrue == {"True", "1", "true", "TRUE", "yes", "t", "Y"}
RfFalse == {"False", "0", "false", "no", "FALSE", "f", "N"}
RfGiven == [x \in {""} \cup RfTrue \cup RfFalse |-> x \in RfTrue]
ReqOf(c, d) == [lang |-> IF c.c THEN "py" ELSE "tex", kind |-> KindOf(d), d |-> d, gs |-> ~c.es,
                rf |-> RfGiven[c.rf], side |-> IF c.lhs THEN "LHS" ELSE "RHS"]
Cli(c, st, o) ==
    LET usesT == c.t # <<>>
        usesP == c.p # ""
        kindT == KindOfSize(Len(c.t))
        unclear == (usesT /\ usesP) \/ (~usesT /\ ~usesP)
        tOk == kindT # "none"
        st1 == IF usesT /\ tOk THEN Put(st, Saved, File(Zip(kindT, c.t))) ELSE st
        stR == IF usesT THEN Put(st, Saved, Unspecified) ELSE st
        pOk == Loadable(st[c.p])
        d == IF usesT THEN Zip(kindT, c.t) ELSE st[c.p].d
        kind == KindOf(d)
        q == ReqOf(c, d)
    IN IF c.rf \notin DOMAIN RfGiven THEN Refused(st, o)
       ELSE IF unclear THEN Refused(st, o)
       ELSE IF usesT /\ st[Saved].k = "dir" THEN Refused(st, o)
       ELSE IF (usesT /\ ~tOk) \/ (usesP /\ ~pOk) THEN Refused(stR, o)
       ELSE IF c.a # "" /\ c.a # AnsatzOf[kind] THEN Refused(stR, o)
       ELSE IF ~Supported(q) \/ ~CanWrite(o, FileName(q)) THEN Refused(stR, o)
       ELSE Write(q, st1, o)

(* [op |-> "overlap", a, b, at]: two runs of driver.py at once, which write different equations files.  Each acts as
   if it were alone; whose truncation is left in ../truncs.json is open. *)
Overlap(c, st, o) ==
    LET x == Cli(c.a, st, o) y == Cli(c.b, st, x.out)
    IN Outcome(x.ok /\ y.ok, IF c.a.t # <<>> /\ c.b.t # <<>> THEN Put(x.store, Saved, Unspecified) ELSE Cli(c.b, x.store, o).store, y.out, <<>>)

(* ---- library ---- *)
(* [op |-> "glue", lang, d, opts]: _glue_._generate_latex / _generate_python; opts holds only the options given *)
Opt(c, k, default) == IF k \in DOMAIN c.opts THEN c.opts[k] ELSE default
Glue(c, st, o) ==
    LET ansatz == Opt(c, "ansatz", "full cc")
        q == [lang |-> c.lang, kind |-> KindOf(c.d), d |-> c.d, gs |-> Opt(c, "only_ground_state", TRUE),
              rf |-> Opt(c, "remove_f_terms", FALSE), side |-> Opt(c, "lhs_rhs", "RHS")]
    IN IF KindOf(c.d) = "none" THEN Refused(st, o)
       ELSE IF ansatz # AnsatzOf[KindOf(c.d)] THEN Refused(st, o)
       ELSE IF ~Supported(q) \/ ~CanWrite(o, FileName(q)) THEN Refused(st, o)
       ELSE Write(q, st, o)

(* [op |-> "gen", q, path]: the generator of the ansatz itself, told where to write *)
Gen(c, st, o) == IF Supported(c.q) /\ CanWrite(o, c.path) THEN Outcome(TRUE, st, Put(o, c.path, Holds(c.q)), <<>>) ELSE Refused(st, o)

(* [op |-> "w", fn, n, h, path]: the generators of the W ansatz (no truncation dictionary).
   The thermal W equations are a fragment: they keep the preamble which the target file has (hdr: whose). *)
Preamble(f) == CASE f.k = "headed" -> [stale |-> TRUE]
                 [] f.k = "equations" /\ "lang" \in DOMAIN f.q -> IF f.q.lang = "tex" THEN f.q ELSE <<>>
                 [] f.k = "equations" /\ "fn" \in DOMAIN f.q -> IF f.q.fn = "wtex" THEN f.q ELSE f.q.hdr
                 [] OTHER -> <<>>
GenW(c, st, o) == LET hdr == IF c.fn = "thermal" /\ c.path \in DOMAIN o THEN Preamble(o[c.path]) ELSE <<>>
                  IN IF ~CanWrite(o, c.path) THEN Refused(st, o)
                     ELSE Outcome(TRUE, st, Put(o, c.path, Holds([fn |-> c.fn, n |-> c.n, h |-> c.h, hdr |-> hdr])), <<>>)

(* truncation files *)
Save(c, st, o) == IF st[c.p].k = "dir" THEN Refused(st, o) ELSE Outcome(TRUE, Put(st, c.p, File(c.d)), o, <<>>)
Load(c, st, o) == IF Loadable(st[c.p]) THEN Outcome(TRUE, st, o, st[c.p].d) ELSE Refused(st, o)
(* [op |-> "loadinto", p, d]: the values of the dictionary d of the caller are overwritten *)
LoadInto(c, st, o) == IF Loadable(st[c.p]) THEN Outcome(TRUE, st, o, st[c.p].d) ELSE Outcome(FALSE, st, o, c.d)
Verify(c, st, o) == Outcome(Valid(c.kind, c.d), st, o, <<>>)

(* things the user does without termfactory *)
Hand(c, st, o) == Outcome(TRUE, Put(st, c.p, c.content), o, <<>>)
StaleFile(c, st, o) == Outcome(TRUE, st, Put(o, c.name, IF c.headed THEN Headed ELSE Stale), <<>>)
Block(c, st, o) == Outcome(TRUE, st, Put(o, c.name, Blocked), <<>>)

Effect(c, st, o) ==
    CASE c.op = "cli" -> Cli(c, st, o)
      [] c.op = "overlap" -> Overlap(c, st, o)
      [] c.op = "glue" -> Glue(c, st, o)
      [] c.op = "gen" -> Gen(c, st, o)
      [] c.op = "w" -> GenW(c, st, o)
      [] c.op = "save" -> Save(c, st, o)
      [] c.op = "load" -> Load(c, st, o)
      [] c.op = "loadinto" -> LoadInto(c, st, o)
      [] c.op = "verify" -> Verify(c, st, o)
      [] c.op = "hand" -> Hand(c, st, o)
      [] c.op = "stale" -> StaleFile(c, st, o)
      [] c.op = "block" -> Block(c, st, o)

(* a command whose outcome the specification leaves open: it reads a file that is unspecified, or loads a file with
   other keys than the dictionary of the caller has *)
Open(c, st) == \/ c.op \in {"cli", "load", "loadinto"} /\ c.p # "" /\ st[c.p].k = "unspecified"
               \/ c.op = "loadinto" /\ Loadable(st[c.p]) /\ DOMAIN st[c.p].d # DOMAIN c.d
===========================================================================
