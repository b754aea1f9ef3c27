--------------------------- MODULE GenSession ----------------------------
(* Generates behaviours of Session to be replayed in termfactory, and checks what Session promises.

   Mode "cli..."  : runs of driver.py in fresh processes, truncation files, stale files
   Mode "trunc..." : verifying, saving and loading truncations in one process
   Mode "lib..."  : generators called one after another in one process
   With Sample = 0 every command is tried in every state (exhaustive); otherwise each state offers a
   random sample (for `-simulate`).  A behaviour of Depth steps is printed with its expected outcomes. *)
EXTENDS Session, Json, Randomization
CONSTANTS Mode, Depth, Sample
VARIABLES store, out, hist, done
vars == <<store, out, hist, done>>

Bool == {TRUE, FALSE}
PathA == "trunc_a.json"
PathB == "sub/trunc_b.json"
Paths == {Saved, PathA, PathB}

(* ---- command line ---- *)
Good == [zhz |-> {<<1,1,1>>, <<2,1,2>>, <<1,2,1>>, <<1,1,2>>, <<2,3,1>>, <<3,1,2>>, <<6,1,1>>, <<1,6,1>>, <<1,1,6>>, <<2,2,3>>},
         fcc |-> {<<1,1,1,1>>, <<2,1,1,1>>, <<1,2,1,1>>, <<1,1,2,1>>, <<1,1,1,2>>, <<1,2,3,1>>, <<2,1,3,1>>, <<3,1,2,2>>,
                  <<6,1,1,1>>, <<1,6,1,1>>, <<1,1,6,1>>, <<1,1,1,6>>, <<1,2,1,2>>},
         eTz |-> {<<1,1,1,1,1>>, <<2,1,1,1,1>>, <<1,2,1,1,1>>, <<1,1,1,2,1>>, <<1,1,1,1,2>>, <<1,2,1,3,2>>, <<2,3,1,1,1>>,
                  <<1,1,1,8,1>>, <<6,1,1,1,1>>, <<1,6,1,1,1>>, <<1,1,1,1,6>>, <<1,1,1,7,1>>}]
GoodT == UNION {Good[k] : k \in Kinds}
(* every truncation of moderate size: what a single run of the generators takes seconds for *)
Wide == [zhz |-> {t \in (1..6) \X (1..6) \X (1..6) : TRUE},
         fcc |-> {t \in (1..6) \X (1..6) \X (1..6) \X (1..6) : t[1] + t[2] + t[3] + t[4] <= 13},
         eTz |-> {t \in (1..6) \X (1..6) \X {1} \X (1..8) \X (1..6) : t[1] + t[2] + t[4] + t[5] <= 13}]
WideT == UNION {Wide[k] : k \in Kinds}
Light(q) == (q.kind = "fcc" /\ q.lang = "tex" /\ ~q.gs) => q.d["CC"] * q.d["S"] <= 10
FewT == {<<1,2,1>>, <<2,3,1>>, <<1,2,3,1>>, <<2,1,1,2>>, <<1,2,1,3,2>>, <<2,1,1,1,1>>}
BadSize == {<<1>>, <<2,2>>, <<1,1,1,1,1,1>>, <<2,1,2,1,1,1,1>>}
BadValue == UNION {UNION {{[i \in DOMAIN KeySeq[k] |-> IF i = j THEN v ELSE 1] : v \in {0, -1, Max[KeySeq[k][j]] + 1}} :
                          j \in DOMAIN KeySeq[k]} : k \in Kinds}
            \cup {<<7,7,7>>, <<2,2,0,0>>}
Ansaetze == {"full cc", "z_t ansatz", "eT_z_t ansatz"}
C(t, p, a, es, rf, c, lhs, log) ==
    [op |-> "cli", t |-> t, p |-> p, a |-> a, es |-> es, rf |-> rf, c |-> c, lhs |-> lhs, log |-> log]
Matching(t) == {"", AnsatzOf[KindOfSize(Len(t))]}
CliGood(ts) == {C(t, "", a, es, rf, c, lhs, "") : t \in ts, a \in {"", "match"}, es \in Bool, rf \in {"", "True", "False"}, c \in Bool, lhs \in Bool}
Fill(c) == IF c.a = "match" THEN [c EXCEPT !.a = AnsatzOf[KindOfSize(Len(c.t))]] ELSE c
CliT(ts) == {Fill(c) : c \in CliGood(ts)}
CliP == {C(<<>>, p, a, es, rf, c, lhs, "") : p \in Paths, a \in {""} \cup Ansaetze, es \in Bool, rf \in {"", "1"}, c \in Bool, lhs \in Bool}
CliBad == {C(t, "", a, FALSE, "", c, FALSE, "") : t \in BadSize \cup BadValue, a \in {""}, c \in Bool}
          \cup {C(t, "", a, es, "", c, FALSE, "") : t \in FewT, a \in Ansaetze \cup {"full_cc", "W", "z_t"}, es \in Bool, c \in Bool}
          \cup {C(t, p, "", FALSE, "", c, FALSE, "") : t \in {<<1,1,1>>, <<1,1,1,1>>}, p \in {PathA, Saved}, c \in Bool}
          \cup {C(<<>>, "", a, FALSE, "", c, lhs, "") : a \in {"", "full cc"}, c \in Bool, lhs \in Bool}
          \cup {C(<<1,1,1,1>>, "", "", FALSE, rf, c, FALSE, "") : rf \in {"maybe", "2", "10", "truth", "falsehood", "nah"}, c \in Bool}
          \cup {C(<<1,1,1,1>>, "", "", FALSE, rf, c, FALSE, "") : rf \in RfTrue \cup RfFalse, c \in Bool}
(* requests in range which are refused, and those out of range *)
CliRefused == {C(t, "", "", es, rf, FALSE, lhs, "") : t \in {<<1,4,1,4>>, <<2,5,1,4>>, <<1,4,2,6>>}, es \in Bool, rf \in {"", "True"}, lhs \in Bool}
              \cup {C(t, "", "", TRUE, rf, FALSE, lhs, "") : t \in {<<1,1,1>>, <<2,1,2>>, <<1,1,1,1,1>>, <<1,2,1,2,2>>}, rf \in {"", "True"}, lhs \in Bool}
              \cup {c \in {C(t, "", "", FALSE, "", py, lhs, "") : t \in BadValue, py \in Bool, lhs \in Bool} : ~(c.c /\ Len(c.t) = 3)}
(* a truncation was saved before; then either another file is written by hand and given by -p, or -t is followed by -p *)
PathDict == {Zip("zhz", <<2,3,1>>), Zip("zhz", <<1,2,3>>), Zip("fcc", <<1,2,3,1>>), Zip("fcc", <<2,1,1,3>>), Zip("eTz", <<1,2,1,3,2>>), Zip("eTz", <<2,3,1,1,1>>)}
PathFile == {File(d) : d \in PathDict} \cup {None, Junk} \cup {File(d) : d \in {Zip("fcc", <<1,2,0,1>>), Zip("zhz", <<2,7,1>>), Zip("eTz", <<1,1,2,1,1>>),
                                                                       [H |-> 1, CC |-> 1], [H |-> 1, CC |-> 1, P |-> 1, bogus |-> 1]}}
PathStep(hs) ==
    CASE Len(hs) = 0 -> {[op |-> "hand", p |-> Saved, content |-> File(Zip("fcc", <<3,1,2,2>>))]}
      [] Len(hs) = 1 -> {[op |-> "hand", p |-> IF f.k = "dict" /\ f.d["H"] = 2 THEN PathB ELSE PathA, content |-> f] : f \in PathFile}
                        \cup {C(t, "", "", es, "", py, lhs, "") : t \in FewT, es \in Bool, py \in Bool, lhs \in Bool}
      [] OTHER -> LET b == hs[2].cmd IN
                  IF b.op = "cli" THEN {[b EXCEPT !.t = <<>>, !.p = Saved]}
                  ELSE IF Loadable(b.content)
                  THEN {C(<<>>, b.p, a, es, "", py, lhs, "") : a \in {""} \cup Ansaetze, es \in Bool, py \in Bool, lhs \in Bool}
                       \cup {C(<<>>, b.p, "", es, "1", py, lhs, "") : es \in Bool, py \in Bool, lhs \in Bool}
                  ELSE {C(<<>>, b.p, "", es, "", py, FALSE, "") : es \in Bool, py \in Bool}
TargetOf(c) == FileName(ReqOf(c, Zip(KindOfSize(Len(c.t)), c.t)))
CliLog == {C(t, "", "", FALSE, rf, c, FALSE, log) : t \in {<<1,1,1>>, <<1,1,1,1>>, <<1,1,1,1,1>>}, rf \in {"", "true", "no", "0"}, c \in Bool, log \in {"-s", "-l"}}

(* the target, or ../truncs.json, cannot be written *)
BlockCli == {C(t, "", "", FALSE, "", py, lhs, "") : t \in {<<2,3,1>>, <<1,2,3,1>>, <<1,2,1,3,2>>}, py \in Bool, lhs \in Bool}
BlockStep(hs) == IF hs = <<>> THEN {[op |-> "block", name |-> TargetOf(c)] : c \in {x \in BlockCli : ~(x.c /\ Len(x.t) = 3)}}
                                   \cup {[op |-> "hand", p |-> Saved, content |-> Directory], [op |-> "hand", p |-> PathA, content |-> Directory]}
                 ELSE IF hs[1].cmd.op = "block" THEN {c \in BlockCli : Len(c.t) = 3 \/ TargetOf(c) = hs[1].cmd.name}
                 ELSE BlockCli \cup {C(<<>>, p, "", FALSE, "", py, FALSE, "") : p \in {Saved, PathA}, py \in Bool}
(* two runs at once; the second happens just before the at-th time the first turns to a file *)
Race == {C(t, "", "", FALSE, "", py, lhs, "") : t \in {<<2,3,1>>, <<1,2,3,1>>, <<1,2,1,3,2>>}, py \in Bool, lhs \in Bool}
RaceB == {C(t, "", "", FALSE, "", py, lhs, "") : t \in {<<1,2,3>>, <<2,1,1,3>>, <<2,3,1,1,1>>}, py \in Bool, lhs \in Bool}
RaceP == {[c EXCEPT !.t = <<>>, !.p = PathA] : c \in {x \in Race : Len(x.t) = 4}}
DictOf(c) == IF c.t # <<>> THEN Zip(KindOfSize(Len(c.t)), c.t) ELSE Zip("fcc", <<1,2,3,1>>)
Fits(c) == Supported(ReqOf(c, DictOf(c)))
RaceCmd == {[op |-> "overlap", a |-> a, b |-> b, at |-> n] : n \in 3..4,
            a \in {x \in Race \cup RaceP : Fits(x)}, b \in {x \in RaceB : Fits(x)}}
RaceKeep(c) == LET x == ReqOf(c.a, DictOf(c.a)) y == ReqOf(c.b, DictOf(c.b))
               IN FileName(x) # FileName(y) /\ (x.kind = y.kind \/ (x.lang = y.lang /\ x.side = y.side))
RaceStep(hs) == IF hs = <<>> THEN {[op |-> "hand", p |-> PathA, content |-> File(Zip("fcc", <<1,2,3,1>>))]}
                ELSE {c \in RaceCmd : RaceKeep(c)}

(* ---- truncation dictionaries ---- *)
Ones(ks) == [k \in ks |-> 1]
Bigger == {Zip("zhz", <<3,2,2>>), Zip("fcc", <<2,2,2,2>>), Zip("fcc", <<2,3,2,2>>), Zip("eTz", <<2,2,1,2,2>>), Zip("eTz", <<1,3,1,2,3>>)}
GoodDict == Bigger \cup {Zip(k, t) : k \in {"zhz"}, t \in Good["zhz"]} \cup {Zip("fcc", t) : t \in Good["fcc"]} \cup {Zip("eTz", t) : t \in Good["eTz"]}
Edge(k) == {-3, 0, 1, 2, Max[k], Max[k] + 1}
EdgeDict == UNION {UNION {{[Ones(KeySet(kd)) EXCEPT ![k] = v] : v \in Edge(k)} : k \in KeySet(kd)} : kd \in Kinds}
(* every combination of values at the ends of the ranges and just outside of them *)
Ends(k) == {0, 1, Max[k], Max[k] + 1}
EndDict == UNION {{d \in [KeySet(kd) -> UNION {Ends(k) : k \in KeySet(kd)}] : \A k \in KeySet(kd) : d[k] \in Ends(k)} : kd \in Kinds}
SubDict == {Ones(ks) : ks \in SUBSET Known \ {{}}}
AllDict == GoodDict \cup EdgeDict \cup EndDict \cup SubDict
Foreign == {[H |-> 1, CC |-> 1, bogus |-> 1], [H |-> 1, CC |-> 1, S |-> 1, bogus |-> 1], [H |-> 1, CC |-> 1, P |-> 1, bogus |-> 1],
            [H |-> 1, CC |-> 1, T |-> 1, eT |-> 1, bogus |-> 1]}
VerifyCmd == {[op |-> "verify", kind |-> k, d |-> d] : k \in Kinds, d \in AllDict}
SaveCmd(ds) == {[op |-> "save", p |-> p, d |-> d] : p \in {PathA, PathB}, d \in ds}
LoadCmd == {[op |-> "load", p |-> p] : p \in Paths}
IntoCmd(ds) == {[op |-> "loadinto", p |-> p, d |-> d] : p \in Paths, d \in ds}
HandCmd(ds) == {[op |-> "hand", p |-> p, content |-> c] : p \in Paths, c \in {File(d) : d \in ds} \cup {Junk, None, Directory}}

(* every dictionary in a file, written by hand or saved, and loaded *)
FileStep(hs) == IF hs = <<>> THEN {[op |-> "hand", p |-> PathA, content |-> File(d)] : d \in AllDict \cup Foreign}
                                  \cup {[op |-> "save", p |-> PathA, d |-> d] : d \in AllDict}
                ELSE {[op |-> "load", p |-> PathA]}

(* ---- library calls ---- *)
OptSets == [ansatz : Ansaetze] \cup [only_ground_state : Bool] \cup [remove_f_terms : Bool] \cup [lhs_rhs : {"LHS", "RHS"}]
           \cup [ansatz : Ansaetze, lhs_rhs : {"LHS", "RHS"}] \cup [ansatz : Ansaetze, only_ground_state : Bool]
           \cup [ansatz : Ansaetze, remove_f_terms : Bool]
           \cup [ansatz : Ansaetze, only_ground_state : Bool, remove_f_terms : Bool, lhs_rhs : {"LHS", "RHS"}]
GlueCmd == {[op |-> "glue", lang |-> lang, d |-> d, opts |-> opts] : lang \in {"tex", "py"}, d \in GoodDict, opts \in OptSets}
GlueGood == {c \in GlueCmd : Opt(c, "ansatz", "full cc") = AnsatzOf[KindOf(c.d)]}
Requests == {[lang |-> lang, kind |-> KindOf(d), d |-> d, gs |-> gs, rf |-> rf, side |-> side] :
             lang \in {"tex", "py"}, d \in GoodDict, gs \in Bool, rf \in Bool, side \in {"LHS", "RHS"}}
WideDict == UNION {{Zip(k, t) : t \in Wide[k]} : k \in Kinds}
(* drawn in two steps: first truncations, then the options *)
WideReq(ds) == {q \in {[lang |-> lang, kind |-> KindOf(d), d |-> d, gs |-> gs, rf |-> rf, side |-> side] :
                       lang \in {"tex", "py"}, d \in ds, gs \in Bool, rf \in Bool, side \in {"LHS", "RHS"}} : Supported(q) /\ Light(q)}
WideGen(ds) == {[op |-> "gen", q |-> q, path |-> "one." \o q.lang] : q \in WideReq(ds)}
CliKeep(c) == LET d == Zip(KindOfSize(Len(c.t)), c.t) IN
              Light([lang |-> IF c.c THEN "py" ELSE "tex", kind |-> KindOf(d), d |-> d, gs |-> ~c.es])
WideCli(ts) == {c \in CliT(ts) : CliKeep(c)}
PathOf(lang) == {"one." \o lang, "two." \o lang}
GenCmd == {[op |-> "gen", q |-> q, path |-> p] : q \in Requests, p \in {"one", "two"}}
WCmd == {[op |-> "w", fn |-> fn, n |-> n, h |-> h, path |-> p] :
         fn \in {"w", "dt", "residual", "wtex", "thermal"}, n \in 1..5, h \in {1, 2}, p \in {"", "one", "two"}}
WKeep(c) == /\ (c.fn # "residual" => c.h = 1) /\ (c.fn = "thermal" => c.n <= 3)
WPath == [w |-> "w_operator_equations.py", dt |-> "dt_amplitude_equations.py", residual |-> "residual_equations.py",
          wtex |-> "ground_state_w_equations.tex", thermal |-> "thermal_w_equations.tex"]
WLang(fn) == IF fn \in {"wtex", "thermal"} THEN ".tex" ELSE ".py"
WCmds == {[c EXCEPT !.path = IF c.path = "" THEN WPath[c.fn] ELSE c.path \o WLang(c.fn)] : c \in {x \in WCmd : WKeep(x)}}
GenCmds == {[c EXCEPT !.path = c.path \o "." \o c.q.lang] : c \in GenCmd}
StaleCmd == {[op |-> "stale", name |-> n, headed |-> FALSE] : n \in {FileName(q) : q \in {x \in Requests : Supported(x)}}}
BlockLib == {[op |-> "block", name |-> n] : n \in {"one.tex", "one.py", "two.tex", "two.py"}}
StaleLib == {[op |-> "stale", name |-> n, headed |-> hd] : hd \in Bool, n \in {"one.tex", "one.py", "two.tex", "two.py"} \cup {WPath[f] : f \in DOMAIN WPath}}

WMix == {c \in WCmds : c.fn = "thermal"} \cup {c \in StaleLib : c.headed} \cup {c \in WCmds : c.fn = "wtex" /\ c.n <= 3}

(* one request of every kind, all over the same ranks, so that whatever one leaves behind would fit the next *)
Twin == {Zip("zhz", <<2,2,2>>), Zip("fcc", <<2,2,2,2>>), Zip("eTz", <<2,2,1,2,2>>)}
PairGen == {[op |-> "gen", q |-> q, path |-> "one." \o q.lang] :
            q \in {x \in {[lang |-> lang, kind |-> KindOf(d), d |-> d, gs |-> gs, rf |-> rf, side |-> side] :
                          lang \in {"tex", "py"}, d \in Twin, gs \in Bool, rf \in Bool, side \in {"LHS", "RHS"}} :
                   Supported(x) /\ (x.kind = "fcc" => x.side = "RHS") /\ (x.lang = "py" => ~x.rf)}}
(* the same request but for one rank *)
Near(k, t) == {Zip(k, t)} \cup {Zip(k, [t EXCEPT ![i] = v]) : i \in {j \in DOMAIN t : KeySeq[k][j] # "T"}, v \in {1, 3}}
NearGen == {[op |-> "gen", q |-> q, path |-> "one." \o q.lang] :
            q \in {x \in {[lang |-> lang, kind |-> KindOf(d), d |-> d, gs |-> TRUE, rf |-> FALSE, side |-> side] : lang \in {"tex", "py"}, side \in {"LHS", "RHS"},
                          d \in Near("zhz", <<2,2,2>>) \cup Near("fcc", <<2,2,2,2>>) \cup Near("eTz", <<2,2,1,2,2>>)} :
                   Supported(x) /\ (x.kind = "fcc" /\ x.lang = "py" => x.side = "RHS")}}
NearW == {c \in WCmds : c.path = WPath[c.fn] /\ c.n \in 2..4}
OneApart(c, e) == \/ c.op = "gen" /\ e.op = "gen" /\ c.q.kind = e.q.kind /\ c.q.lang = e.q.lang /\ c.q.side = e.q.side
                     /\ Cardinality({k \in DOMAIN c.q.d : c.q.d[k] # e.q.d[k]}) = 1
                  \/ c.op = "w" /\ e.op = "w" /\ c.fn = e.fn /\ c # e
(* requests which are refused half way *)
PairBad == {[op |-> "gen", q |-> [lang |-> "tex", kind |-> KindOf(d), d |-> d, gs |-> gs, rf |-> FALSE, side |-> "RHS"], path |-> "one.tex"] :
            gs \in Bool, d \in {Zip("fcc", <<1,4,1,4>>), Zip("zhz", <<2,2,7>>), Zip("eTz", <<2,2,1,2,7>>)}}
PairW == {c \in WCmds : c.path = WPath[c.fn] /\ c.n = (IF c.fn = "thermal" THEN 2 ELSE 3)}

(* ---- which commands are offered ---- *)
ASSUME TLCSet(11, TLCEval(CliT(GoodT))) /\ TLCSet(12, TLCEval(GlueGood)) /\ TLCSet(13, TLCEval({c \in GenCmds : Supported(c.q)}))
ASSUME TLCSet(14, TLCEval(GlueCmd)) /\ TLCSet(15, TLCEval(CliBad)) /\ TLCSet(16, TLCEval(AllDict)) /\ TLCSet(17, TLCEval(StaleCmd))
ASSUME (Mode = "lib_grid" => TLCSet(19, TLCEval(WideDict))) /\ (Mode = "cli_grid" => TLCSet(20, TLCEval(WideT)))
ASSUME TLCSet(18, TLCEval(GenCmds))
Pick(n, S) == IF Sample = 0 THEN S ELSE RandomSubset(IF Cardinality(S) < n * Sample THEN Cardinality(S) ELSE n * Sample, S)
IntoLike == UNION {{[op |-> "loadinto", p |-> p, d |-> d] : d \in {x \in TLCGet(16) : DOMAIN x = DOMAIN store[p].d}} :
                   p \in {x \in Paths : Loadable(store[x])}}
Pool ==
    CASE Mode = "cli" -> CliT(FewT) \cup CliBad \cup CliLog
      [] Mode = "cli_all" -> TLCGet(11) \cup CliBad \cup CliLog
      [] Mode = "cli_session" -> Pick(5, TLCGet(11)) \cup Pick(4, CliP) \cup Pick(2, TLCGet(15)) \cup Pick(1, CliLog) \cup Pick(2, HandCmd(GoodDict))
                                 \cup Pick(1, HandCmd(TLCGet(16) \cup Foreign)) \cup Pick(1, SaveCmd(GoodDict)) \cup Pick(1, TLCGet(17))
      [] Mode = "cli_grid" -> RandomSubset(1, WideCli(RandomSubset(3, TLCGet(20))))
      [] Mode = "lib_grid" -> RandomSubset(1, WideGen(RandomSubset(5, TLCGet(19))))
      [] Mode = "cli_refused" -> IF hist = <<>> THEN {[op |-> "stale", name |-> TargetOf(c), headed |-> FALSE] : c \in CliRefused}
                                 ELSE {c \in CliRefused : TargetOf(c) = hist[1].cmd.name}
      [] Mode = "cli_path" -> PathStep(hist)
      [] Mode = "cli_blocked" -> BlockStep(hist)
      [] Mode = "cli_overlap" -> RaceStep(hist)
      [] Mode = "lib_ranks" -> IF hist = <<>> THEN NearGen \cup NearW ELSE {c \in NearGen \cup NearW : OneApart(hist[1].cmd, c)}
      [] Mode = "lib_pairs" -> PairGen \cup PairW \cup PairBad
      [] Mode = "trunc" -> VerifyCmd
      [] Mode = "trunc_file" -> FileStep(hist)
      [] Mode = "trunc_session" -> Pick(3, SaveCmd(TLCGet(16))) \cup Pick(3, LoadCmd) \cup Pick(3, HandCmd(TLCGet(16) \cup Foreign))
                                   \cup Pick(1, VerifyCmd) \cup Pick(1, IntoCmd(TLCGet(16))) \cup Pick(2, IntoLike)
      [] Mode = "lib_session" -> Pick(5, TLCGet(13)) \cup Pick(4, TLCGet(12)) \cup Pick(5, WCmds) \cup Pick(2, WMix) \cup Pick(1, TLCGet(14)) \cup Pick(1, TLCGet(18))
                                 \cup Pick(1, StaleLib) \cup Pick(1, TLCGet(17)) \cup Pick(1, BlockLib)
      [] Mode = "design" -> {c \in CliT({<<1,2,1>>, <<1,2,1,1>>, <<1,2,1,1,1>>}) : c.rf # "False"} \cup CliP
                            \cup HandCmd({Zip("fcc", <<1,2,1,1>>), Zip("zhz", <<0,1,1>>)}) \cup {c \in CliBad : c.t = <<>> \/ Len(c.t) \in {1, 2, 3}}

Init == /\ store = [p \in Paths |-> None]
        /\ out = <<>>
        /\ hist = <<>> /\ done = FALSE

Do(c) == LET e == Effect(c, store, out) IN
         /\ store' = e.store /\ out' = e.out
         /\ hist' = Append(hist, [cmd |-> c, ok |-> e.ok, ret |-> e.ret, store |-> e.store, out |-> e.out])

Finish == /\ Len(hist) = Depth /\ ~done
          /\ done' = TRUE /\ UNCHANGED <<store, out, hist>>
          /\ (Mode # "design" => PrintT("BEHAVIOUR " \o ToJson(hist)))
Step == /\ Len(hist) < Depth
        /\ \E c \in Pool : ~Open(c, store) /\ Do(c)
        /\ UNCHANGED done
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what Session promises (checked exhaustively in mode "design") ---- *)
Last == hist[Len(hist)]
DesignView == <<store, out, Len(hist), IF hist = <<>> THEN <<>> ELSE Last>>
(* a truncation given by -t can be given again by -p, with the same result *)
Repeatable == (hist # <<>> /\ Last.cmd.op = "cli" /\ Last.ok /\ Last.cmd.t # <<>>) =>
              LET again == [Last.cmd EXCEPT !.t = <<>>, !.p = Saved]
                  e == Effect(again, store, out)
              IN e.ok /\ e.out = out /\ e.store = store
(* naming the ansatz never changes what is produced *)
AnsatzRedundant == (hist # <<>> /\ Last.cmd.op = "cli" /\ Last.ok) =>
              LET e == Effect([Last.cmd EXCEPT !.a = ""], store, out) IN e.ok /\ e.out = out
(* running twice = running once *)
Idempotent == (hist # <<>> /\ Last.cmd.op = "cli" /\ Last.ok) =>
              LET e == Effect(Last.cmd, store, out) IN e.ok /\ e.out = out /\ e.store = store
(* two runs which write different files may take place in either order *)
Commute == Mode = "design" => \A a \in {x \in Race : Fits(x)}, b \in {x \in RaceB : Fits(x)} :
              RaceKeep([a |-> a, b |-> b]) => Cli(b, store, Cli(a, store, out).out).out = Cli(a, store, Cli(b, store, out).out).out
(* what a file holds is what its name says *)
NamesFit == \A f \in DOMAIN out : out[f].k = "equations" => (Supported(out[f].q) /\ FileName(out[f].q) = f)
TypeOk == \A p \in Paths : store[p].k \in {"none", "junk", "unspecified", "dict", "dir"}
(* refused: no equations file appears or changes; at most one file is written otherwise *)
RefusalChangesNothing == [][(hist' # hist /\ ~hist'[Len(hist')].ok) => out' = out]_vars
OneFile == [][Cardinality({f \in DOMAIN out' : f \notin DOMAIN out \/ out'[f] # out[f]}) <= 1]_vars
===========================================================================
