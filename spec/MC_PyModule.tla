---------------------------- MODULE MC_PyModule ----------------------------
(* The machine of PyModule against the meaning of its verdict, on every program of up to `Longest` tokens: a variable is
   reported exactly when some way through the program reads it before it has been assigned.  A way through decides for
   every "if" which branch, and for every "for" whether its body is run. *)
EXTENDS PyModule
CONSTANT Longest
VARIABLES w, q
vars == <<w, q>>

Loc == {"x", "y"}
Alphabet == {<<"use", "x">>, <<"bind", "x">>, <<"bind", "y">>, <<"use", "y">>, <<"if">>, <<"else">>, <<"fi">>, <<"for">>, <<"rof">>, <<"leave">>}
Init == w = <<>> /\ q = Fresh
\* only programs that are well structured so far
May(t) == CASE t[1] = "else" -> q.st # <<>> /\ Top(q).k = "if"
            [] t[1] = "fi" -> q.st # <<>> /\ Top(q).k = "else"
            [] t[1] = "rof" -> q.st # <<>> /\ Top(q).k = "for"
            [] OTHER -> TRUE
Next == /\ Len(w) < Longest
        /\ \E t \in Alphabet : May(t) /\ w' = Append(w, t) /\ q' = Step(q, t, Loc)
Spec == Init /\ [][Next]_vars

Opens == {i \in DOMAIN w : w[i][1] \in {"if", "for"}}
Net(i, j) == Cardinality({k \in i..j : w[k][1] \in {"if", "for"}}) - Cardinality({k \in i..j : w[k][1] \in {"fi", "rof"}})
\* token j lies within what i opened
Within(i, j) == i < j /\ (\A k \in (i + 1)..j : Net(i, k) >= 1)
\* its second branch
Second(i, j) == \E k \in (i + 1)..(j - 1) : w[k][1] = "else" /\ Net(i, k) = 1 /\ Within(i, k)
\* token j is on the way c (c[i]: TRUE = first branch / body is run)
OnWay(c, j) == \A i \in Opens : Within(i, j) => IF w[i][1] = "for" THEN c[i] ELSE c[i] = ~Second(i, j)
Reached(c, j) == OnWay(c, j) /\ ~\E k \in 1..(j - 1) : w[k][1] = "leave" /\ OnWay(c, k)
Faulty == \E c \in [Opens -> BOOLEAN] : \E j \in DOMAIN w :
             /\ w[j][1] = "use" /\ Reached(c, j)
             /\ ~\E k \in 1..(j - 1) : w[k] = <<"bind", w[j][2]>> /\ Reached(c, k)
Exact == (q.err # {}) = Faulty
\* what is definitely assigned at the end really is, on every way that gets there
Definite == (~q.dead /\ q.st = <<>>) => \A x \in q.D : \A c \in [Opens -> BOOLEAN] :
              (\E k \in DOMAIN w : w[k][1] = "leave" /\ OnWay(c, k)) \/ \E k \in DOMAIN w : w[k] = <<"bind", x>> /\ OnWay(c, k)
\* contractions
EinsumRight ==
  /\ EinsumFaults(<<"einsum", <<<<1, 2>>, <<2, 3>>>>, <<1, 3>>, 2>>) = {}
  /\ EinsumFaults(<<"einsum", <<<<1, 2>>, <<2, 3>>>>, <<1, 4>>, 2>>) # {}
  /\ EinsumFaults(<<"einsum", <<<<1, 2>>, <<2, 3>>>>, <<1, 1>>, 2>>) # {}
  /\ EinsumFaults(<<"einsum", <<<<1, 2>>, <<2, 3>>>>, <<1>>, 3>>) # {}
ASSUME EinsumRight
============================================================================
