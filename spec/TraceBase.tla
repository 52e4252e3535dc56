------------------------------ MODULE TraceBase ------------------------------
(* Validation of recorded events.  The file named by the environment        *)
(* variable TRACE holds one JSON event [k, in, out] per line, recorded from *)
(* the real code.  W chains of states walk over the events (so that TLC's   *)
(* workers share the work); each step consumes one event, which must be one *)
(* that the specification's judge accepts (it returns the empty string).    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
W == 16

VARIABLES at, bad

Failed(e) == "fail" \in DOMAIN e.out

Init == /\ at \in {1 - j : j \in 1..W}
        /\ bad = ""

Consume(Judge(_)) ==
        /\ bad = ""
        /\ at + W <= Len(Trace)
        /\ at' = at + W
        /\ bad' = LET e == Trace[at + W]
                  IN IF Failed(e) THEN e.out.fail ELSE Judge(e)

Accepted == bad = ""
=============================================================================
