----------------------------- MODULE MC_TexDoc -----------------------------
(* The reading machine of TexDoc against what its verdict is to mean, on every text of up to `Len` tokens:
   w is the text read so far, continued only while no error has been found. *)
EXTENDS TexDoc
CONSTANT Longest
VARIABLES w, q
vars == <<w, q>>

Alphabet == {<<"{">>, <<"}">>, <<"^">>, <<"_">>, <<"ch">>, <<"&">>, <<"\\\\">>, <<"par">>, <<"(">>, <<")">>,
             <<"begin", "align">>, <<"end", "align">>, <<"begin", "split">>, <<"end", "split">>, <<"mac", "hat">>, <<"left">>, <<"right">>}
Init == w = <<>> /\ q = Start(TRUE)
Next == /\ Len(w) < Longest /\ q.err = {}
        /\ \E t \in Alphabet : w' = Append(w, t) /\ q' = Read(q, t, TRUE)
Spec == Init /\ [][Next]_vars

Num(t) == Cardinality({i \in DOMAIN w : w[i] = t})
Open(x, y) == Num(x) - Num(y)
Ok == q.err = {}
\* depth of the frames is what the counts say
Depth == Ok => Len(q.st) = 1 + Open(<<"{">>, <<"}">>) + Open(<<"left">>, <<"right">>)
                             + Open(<<"begin", "align">>, <<"end", "align">>) + Open(<<"begin", "split">>, <<"end", "split">>)
Closing == Ok /\ Complete(q, TRUE) =>
             /\ Num(<<"{">>) = Num(<<"}">>) /\ Num(<<"left">>) = Num(<<"right">>)
             /\ Num(<<"begin", "align">>) = Num(<<"end", "align">>) /\ Num(<<"begin", "split">>) = Num(<<"end", "split">>)
\* parentheses of a formula balance (those which are the argument of a script or command do not count)
Parens == (/\ Ok /\ Complete(q, TRUE) /\ w # <<>> /\ Num(<<"begin", "align">>) = 1
           /\ w[1] = <<"begin", "align">> /\ w[Len(w)] = <<"end", "align">>
           /\ ~\E i \in 1..(Len(w) - 1) : w[i] \in {<<"^">>, <<"_">>, <<"mac", "hat">>} /\ w[i + 1] \in {<<"(">>, <<")">>})
          => Num(<<"(">>) = Num(<<")">>)
In(i, x, y) == Cardinality({j \in 1..(i - 1) : w[j] = x}) > Cardinality({j \in 1..(i - 1) : w[j] = y})
\* as many x as y since the last environment began or ended
Level(i, x, y) == LET from == CHOOSE k \in 0..(i - 1) : (k = 0 \/ w[k][1] \in {"begin", "end"}) /\ \A j \in (k + 1)..(i - 1) : w[j][1] \notin {"begin", "end"}
                  IN Cardinality({j \in (from + 1)..(i - 1) : w[j] = x}) = Cardinality({j \in (from + 1)..(i - 1) : w[j] = y})
Formula(i) == In(i, <<"begin", "align">>, <<"end", "align">>)
\* scripts, alignment, commands of formulas: only within; empty lines: only outside
Modes == Ok => \A i \in DOMAIN w :
           /\ w[i][1] \in {"^", "_", "&", "left", "right"} => Formula(i)
           /\ w[i] = <<"mac", "hat">> => Formula(i)
           /\ w[i] = <<"par">> => ~Formula(i)
           /\ w[i] = <<"begin", "split">> => Formula(i)
           /\ w[i] \in {<<"&">>, <<"\\\\">>} /\ Formula(i) => Level(i, <<"{">>, <<"}">>) /\ Level(i, <<"left">>, <<"right">>)
\* no script without argument, no second one of the same sort
Scripts == Ok => \A i \in 1..(Len(w) - 1) :
           /\ w[i][1] \in {"^", "_"} => w[i + 1][1] \in {"{", "ch", "(", ")", "mac"}
           /\ i + 2 <= Len(w) /\ w[i][1] \in {"^", "_"} /\ w[i + 1][1] = "ch" => w[i + 2] # w[i]
\* one & per row of a split
Rows == Ok => \A i, j \in DOMAIN w : i < j /\ w[i] = <<"&">> /\ w[j] = <<"&">>
                 /\ (\A x \in i..j : w[x][1] \notin {"\\\\", "begin", "end"}) => ~In(i, <<"begin", "split">>, <<"end", "split">>)
============================================================================
