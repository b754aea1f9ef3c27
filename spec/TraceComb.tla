------------------------------ MODULE TraceComb ------------------------------
(* Calls of the shared combinatorial helpers, validated against Comb.
   An event: [key, fn, arg, res]; for the symmetrizer res is what the generated function adds up for a tensor of order
   arg: a sequence of <<axes, coefficient>> with coefficient <<numerator, denominator>>. *)
EXTENDS Comb, TLC, Json, IOUtils
VARIABLES tr, l, emitted, phase

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Cl(c, d) == [c |-> c, d |-> d]
Same(got, want) == (IF NoRepeats(got) THEN {} ELSE {Cl("listed twice", <<>>)})
                   \cup {Cl("missing", x) : x \in want \ Els(got)} \cup {Cl("unexpected", x) : x \in Els(got) \ want}
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> \/ b = <<>> THEN Len(a) < Len(b)
                ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
CombClauses(T, ev) ==
  CASE ev.exc # "" -> {Cl("raised", <<ev.exc>>)}
    [] ev.fn = "partitions" -> Same(ev.res, Partitions(ev.arg))
    [] ev.fn = "mixed" -> Same(ev.res, Mixed(ev.arg))
    [] ev.fn = "linked" -> Same(ev.res, Linked(ev.arg))
    [] ev.fn = "unlinked" -> Same(ev.res, Unlinked(ev.arg))
    [] ev.fn = "connected" -> IF ev.res = Connected(ev.arg) THEN {} ELSE {Cl("unexpected", ev.res)}
    [] ev.fn = "orders" -> Same(ev.res, Orders(ev.arg))
                           \cup (IF \A i \in 1..(Len(ev.res) - 1) : Before(ev.res[i], ev.res[i + 1]) THEN {} ELSE {Cl("not sorted", <<>>)})
    [] ev.fn = "symmetrize" -> Same([i \in DOMAIN ev.res |-> ev.res[i][1]], Symmetrized(ev.arg))
                               \cup {Cl("coefficient", ev.res[i]) : i \in {j \in DOMAIN ev.res : ev.res[j][2] # <<1, 1>>}}
    [] OTHER -> {Cl("structure", <<ev.fn>>)}
CombClose(T, done) == {}

INSTANCE Conformance WITH Traces <- Data.traces, Clauses <- CombClauses, CloseClauses <- CombClose
==============================================================================
