----------------------------- MODULE TraceBase -----------------------------
(* Frame of all trace specifications.  A trace is a file with one JSON      *)
(* record per line; one step consumes one record and prints the verdict:    *)
(* the names of the clauses of the specification which the record breaks.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

(* A clause list is a sequence of << name, truth value >> *)
Bad(cs) == { cs[i][1] : i \in { j \in 1..Len(cs) : ~cs[j][2] } }
Names(cs) == [ i \in 1..Len(cs) |-> cs[i][1] ]
Report(i, cs) == PrintT(ToJson([ i |-> i, bad |-> Bad(cs), checked |-> Names(cs) ]))
=============================================================================
