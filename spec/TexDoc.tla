------------------------------ MODULE TexDoc ------------------------------
(* A LaTeX document as a machine that reads tokens.  It accepts the documents LaTeX (with the packages they
   load) typesets without an error, restricted to the constructs termfactory uses:
     - groups, environments, \left \right pairs and $ are properly nested; parentheses balance in formulas
     - ^ and _ only in formulas, at most one of each per atom, each with an argument
     - & and \\ belong to align and split, not to groups inside them; one & per row of a split
     - no empty line within a formula; formulas are not nested
     - every command is known: built in, from a loaded package, or defined in the preamble; it is used in
       the right mode and has its arguments
   A token is a sequence of strings:
     "mac" name | "{" | "}" | "^" | "_" | "&" | "\\" | "$" | "par" | "(" | ")" | "ch" | "opt" (bracketed option)
     "begin" env | "end" env | "left" | "right" | "package" name | "class" | "def" name arity uses... *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

\* name |-> <<mandatory arguments, mode "m" formula only / "t" text only / "any", package it comes from>>
Greek == {"gamma", "tau", "lambda", "delta", "varepsilon", "Omega", "psi", "Psi", "chi", "dagger"}
Builtin ==
  [x \in Greek \cup {"sum", "cdots", "equiv", "approx", "Big"} |-> <<0, "m", "">>]
  @@ [x \in {"hat", "bar"} |-> <<1, "m", "">>]
  @@ [x \in {"frac"} |-> <<2, "m", "">>]
  @@ [x \in {"textbf", "textit"} |-> <<1, "any", "">>]
  @@ [x \in {"qquad", "quad", "clearpage", "newpage", ","} |-> <<0, "any", "">>]
  @@ [x \in {"section", "subsection", "paragraph", "vspace"} |-> <<1, "t", "">>]
  @@ [x \in {"text"} |-> <<1, "any", "amsmath">>]
  @@ [x \in {"dv", "ket", "bra"} |-> <<1, "m", "physics">>]
  @@ [x \in {"mel"} |-> <<3, "m", "physics">>]
  @@ [x \in {"contraction"} |-> <<4, "m", "simplewick">>]
  @@ [x \in {"mathds"} |-> <<1, "m", "dsfont">>]
  @@ [x \in {"bm"} |-> <<1, "m", "bm">>]
  @@ [x \in {"color"} |-> <<1, "any", "color">>]
  @@ [x \in {"colorbox"} |-> <<2, "any", "color">>]
  @@ [x \in {"geometry"} |-> <<1, "any", "geometry">>]
TextArgument == {"textbf", "textit", "text", "section", "subsection", "paragraph", "vspace"}
MathEnvs == {"equation", "align", "split"}
EnvPackage == [x \in {"equation", "document"} |-> ""] @@ [x \in {"align", "split"} |-> "amsmath"]

\* physics loads amsmath and xparse
Closure(pk) == pk \cup (IF "physics" \in pk THEN {"amsmath", "xparse"} ELSE {}) \cup {""}

\* an open construct: k kind, n name, math mode inside, amp number of & in this row, scr scripts the last atom
\* has, par open parentheses, cont arguments its command still needs afterwards, tc text arguments follow
Frame(k, n, math, cont, tc) == [k |-> k, n |-> n, math |-> math, amp |-> 0, scr |-> {}, par |-> 0, cont |-> cont, tc |-> tc]

Start(fragment) == [ph |-> IF fragment THEN "body" ELSE "preamble", pk |-> {""}, df |-> {}, uses |-> {}, cls |-> fragment,
                    st |-> IF fragment THEN <<Frame("env", "document", FALSE, 0, FALSE)>> ELSE <<>>,
                    need |-> 0, tc |-> FALSE, sc |-> FALSE, err |-> {}]

Bad(s, why) == [s EXCEPT !.err = @ \cup {why}]
Top(s) == s.st[Len(s.st)]
SetTop(s, f) == [s EXCEPT !.st[Len(s.st)] = f]
\* a new atom in the innermost construct
Atom(s) == IF s.st = <<>> THEN s ELSE SetTop(s, [Top(s) EXCEPT !.scr = {}])

Known(s, fragment, name) ==
  \/ name \in DOMAIN Builtin /\ (fragment \/ Builtin[name][3] \in Closure(s.pk))
  \/ \E d \in s.df : d[1] = name
  \/ fragment /\ name = "bt"
\* <<arguments, mode>>
Signature(s, name) ==
  CASE \E d \in s.df : d[1] = name -> <<(CHOOSE d \in s.df : d[1] = name)[2], "any">>
    [] name \in DOMAIN Builtin -> <<Builtin[name][1], Builtin[name][2]>>
    [] OTHER -> <<0, "any">>

\* what is waiting for an argument takes this token as one (or there is an error)
Feed(s, t) ==
  CASE s.sc -> [s EXCEPT !.sc = FALSE]
    [] s.need > 0 -> [s EXCEPT !.need = @ - 1]
    [] OTHER -> s

Push(s, f) == [s EXCEPT !.st = Append(@, f), !.need = 0, !.sc = FALSE, !.tc = FALSE]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Waiting(s) == s.sc \/ s.need > 0

Body(s, t, fragment) ==
  LET k == t[1]
      top == Top(s)
      math == top.math
  IN CASE k = "opt" -> s
       [] k = "{" -> IF s.sc THEN Push(s, Frame("group", "script", math, 0, FALSE))
                     ELSE IF s.need > 0 THEN Push(s, Frame("group", "arg", IF s.tc THEN FALSE ELSE math, s.need - 1, s.tc))
                     ELSE Push(s, Frame("group", "plain", math, 0, FALSE))
       [] k = "}" ->
            IF Waiting(s) THEN Bad([s EXCEPT !.sc = FALSE, !.need = 0], "argument missing before }")
            ELSE IF top.k # "group" THEN Bad(s, "unexpected }")
            ELSE LET u == IF math /\ top.par # 0 THEN Bad(Pop(s), "unbalanced parentheses") ELSE Pop(s)
                 IN IF top.n = "script" THEN u ELSE Atom([u EXCEPT !.need = top.cont, !.tc = top.tc])
       [] k \in {"ch", "(", ")"} ->
            IF Waiting(s) THEN Feed(s, t)
            ELSE IF k = "ch" THEN Atom(s)
            ELSE IF ~math THEN s
            ELSE LET p == IF k = "(" THEN top.par + 1 ELSE top.par
                 IN IF k = ")" /\ p = 0 THEN Bad(s, "unbalanced parentheses")
                    ELSE SetTop(s, [top EXCEPT !.scr = {}, !.par = IF k = "(" THEN p ELSE p - 1])
       [] k = "mac" ->
            LET sig == Signature(s, t[2])
                u == IF ~Known(s, fragment, t[2]) THEN Bad(s, "unknown command " \o t[2])
                     ELSE IF (sig[2] = "m" /\ ~math) \/ (sig[2] = "t" /\ math) THEN Bad(s, "command in the wrong mode " \o t[2])
                     ELSE IF s.need > 0 /\ sig[1] > 0 THEN Bad(s, "argument missing before " \o t[2])
                     ELSE s
            IN IF s.sc THEN [u EXCEPT !.sc = FALSE, !.need = sig[1], !.tc = t[2] \in TextArgument]
               ELSE IF s.need > 0 THEN [u EXCEPT !.need = @ - 1]
               ELSE Atom([u EXCEPT !.need = sig[1], !.tc = t[2] \in TextArgument])
       [] Waiting(s) -> Bad([s EXCEPT !.sc = FALSE, !.need = 0], "argument missing")
       [] k \in {"^", "_"} ->
            IF ~math THEN Bad(s, "script outside a formula")
            ELSE LET u == IF k \in top.scr THEN Bad(s, "double script") ELSE s
                 IN SetTop([u EXCEPT !.sc = TRUE], [top EXCEPT !.scr = @ \cup {k}])
       [] k = "&" ->
            IF top.k # "env" \/ top.n \notin {"align", "split"} THEN Bad(s, "misplaced &")
            ELSE LET u == IF top.n = "split" /\ top.amp >= 1 THEN Bad(s, "two & in a row") ELSE s
                 IN SetTop(u, [top EXCEPT !.amp = @ + 1, !.scr = {}])
       [] k = "\\\\" ->
            IF top.k # "env" THEN Bad(s, "misplaced line break")
            ELSE SetTop(s, [top EXCEPT !.amp = 0, !.scr = {}])
       [] k = "$" ->
            IF top.k = "dollar" THEN Pop(s)
            ELSE IF math THEN Bad(s, "$ within a formula")
            ELSE Push(s, Frame("dollar", "", TRUE, 0, FALSE))
       [] k = "par" -> IF math THEN Bad(s, "empty line within a formula") ELSE s
       [] k = "left" -> IF math THEN Push(s, Frame("left", "", TRUE, 0, FALSE)) ELSE Bad(s, "delimiter outside a formula")
       [] k = "right" -> IF top.k # "left" THEN Bad(s, "unmatched right delimiter")
                         ELSE Atom(IF top.par # 0 THEN Bad(Pop(s), "unbalanced parentheses") ELSE Pop(s))
       [] k = "begin" ->
            LET e == t[2]
                u == IF e \notin DOMAIN EnvPackage THEN Bad(s, "unknown environment " \o e)
                     ELSE IF ~fragment /\ EnvPackage[e] \notin Closure(s.pk) THEN Bad(s, "package missing for " \o e)
                     ELSE IF e = "document" THEN Bad(s, "document begins twice")
                     ELSE IF e = "split" /\ ~(top.k = "env" /\ top.n \in {"align", "equation"}) THEN Bad(s, "split outside a formula")
                     ELSE IF e # "split" /\ math THEN Bad(s, "formula within a formula")
                     ELSE s
            IN Push(u, Frame("env", e, TRUE, 0, FALSE))
       [] k = "end" ->
            IF top.k # "env" \/ top.n # t[2] THEN Bad(s, "environment ends out of order " \o t[2])
            ELSE LET u == IF math /\ top.par # 0 THEN Bad(Pop(s), "unbalanced parentheses") ELSE Pop(s)
                 IN IF t[2] = "document" THEN [u EXCEPT !.ph = "after"] ELSE Atom(u)
       [] OTHER -> Bad(s, "misplaced " \o k)

Preamble(s, t) ==
  CASE t[1] = "class" -> IF s.cls THEN Bad(s, "second class") ELSE [s EXCEPT !.cls = TRUE]
    [] ~s.cls /\ t[1] # "par" -> Bad(s, "no class")
    [] t[1] = "package" -> [s EXCEPT !.pk = @ \cup {t[2]}]
    [] t[1] = "def" -> LET u == IF \E d \in s.df : d[1] = t[2] THEN Bad(s, "defined twice " \o t[2]) ELSE s
                       IN [u EXCEPT !.df = @ \cup {<<t[2], Len(t[3])>>}, !.uses = @ \cup {t[4][i] : i \in DOMAIN t[4]}]
    [] t[1] = "setting" -> [s EXCEPT !.uses = @ \cup {t[2]}]
    [] t[1] = "begin" /\ t[2] = "document" ->
         LET unknown == {x \in s.uses : ~Known(s, FALSE, x)}
             u == IF unknown = {} THEN s ELSE [s EXCEPT !.err = @ \cup {"unknown command " \o x : x \in unknown}]
         IN [u EXCEPT !.ph = "body", !.st = <<Frame("env", "document", FALSE, 0, FALSE)>>]
    [] t[1] = "par" -> s
    [] OTHER -> Bad(s, "text before the document begins")

Read(s, t, fragment) ==
  CASE s.ph = "preamble" -> Preamble(s, t)
    [] s.ph = "body" -> Body(s, t, fragment)
    [] OTHER -> IF t[1] = "par" THEN s ELSE Bad(s, "text after the document ends")

Complete(s, fragment) ==
  IF fragment THEN Len(s.st) = 1 /\ ~Waiting(s) ELSE s.ph = "after" /\ s.st = <<>>
===========================================================================
