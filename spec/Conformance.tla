--------------------------- MODULE Conformance ---------------------------
(* Binds recorded behaviour of termfactory to a specification.

   One behaviour = one run of a generator (a trace).  Its events are the equations the run produced,
   in the order in which it produced them.  The machine consumes one event per step; `Clauses`
   says which clauses of the specification the event breaks ({} = the step is one the specification
   allows) and `CloseClauses` what is wrong with the run as a whole once it ended (equations which
   are required and were never produced).  A rejected event is reported and the machine goes on, so
   that the rest of the trace is still examined. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Traces, Clauses(_, _), CloseClauses(_, _)
VARIABLES tr, l, emitted, phase

vars == <<tr, l, emitted, phase>>

Report(where, cl) == PrintT("REJECT " \o ToJson([tr |-> tr, ev |-> where, cl |-> cl]))

Init == /\ tr \in DOMAIN Traces
        /\ l = 0 /\ emitted = {} /\ phase = "running"

Emit == /\ phase = "running" /\ l < Len(Traces[tr].events)
        /\ LET T == Traces[tr]
               e == T.events[l + 1]
               dup == IF e.key \in emitted THEN {[c |-> "produced twice", d |-> e.key]} ELSE {}
               cl == Clauses(T, e) \cup dup
           IN cl # {} => Report(l + 1, cl)
        /\ l' = l + 1
        /\ emitted' = emitted \cup {Traces[tr].events[l + 1].key}
        /\ UNCHANGED <<tr, phase>>

Close == /\ phase = "running" /\ l = Len(Traces[tr].events)
         /\ LET cl == CloseClauses(Traces[tr], emitted) IN cl # {} => Report(0, cl)
         /\ phase' = "closed"
         /\ UNCHANGED <<tr, l, emitted>>

Next == Emit \/ Close
Spec == Init /\ [][Next]_vars

==========================================================================
