---------------------------- MODULE TraceTexDoc ----------------------------
(* Every document termfactory writes is read by the machine of TexDoc, line by line.
   Data.lines: the distinct lines as sequences of tokens; a trace is the sequence of its lines. *)
EXTENDS TexDoc, TLC, Json, IOUtils
VARIABLES tr, l, q, phase
vars == <<tr, l, q, phase>>

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == Data.traces
Report(where, cl) == PrintT("REJECT " \o ToJson([tr |-> tr, ev |-> where, cl |-> cl]))
Clause(c) == [c |-> c, d |-> <<>>]

Init == /\ tr \in DOMAIN Traces
        /\ l = 0 /\ q = Start(Traces[tr].fragment) /\ phase = "running"

ReadLine == /\ phase = "running" /\ l < Len(Traces[tr].events)
            /\ LET T == Traces[tr]
                   u == FoldLeft(LAMBDA acc, t : Read(acc, t, T.fragment), q, Data.lines[T.events[l + 1]])
               IN /\ u.err # {} => Report(l + 1, {Clause(c) : c \in u.err})
                  /\ q' = [u EXCEPT !.err = {}]
            /\ l' = l + 1
            /\ UNCHANGED <<tr, phase>>

Close == /\ phase = "running" /\ l = Len(Traces[tr].events)
         /\ ~Complete(q, Traces[tr].fragment) => Report(0, {Clause("document incomplete")})
         /\ phase' = "closed"
         /\ UNCHANGED <<tr, l, q>>

Next == ReadLine \/ Close
Spec == Init /\ [][Next]_vars
===========================================================================
