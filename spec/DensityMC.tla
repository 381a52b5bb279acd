----------------------------- MODULE DensityMC -----------------------------
(* All histories of compute_pdf and get_pdf on a neighborhood.  asked is the *)
(* history of the calls with their options; what get_pdf answers must be     *)
(* determined by the last computation in that history (Definition).          *)
EXTENDS Density, Json
CONSTANTS Variants,      \* bandwidths
          Depth,         \* bound on the number of calls
          Export,        \* print the histories of maximal length
          Variant
ASSUME Variant \in {"ok", "getRecomputes", "computeOnce", "normalizeTwice", "modeIgnored"}
VARIABLES st,            \* options the stored densities were computed with
          div,           \* number of divisions by the neighborhood size in them
          answer, calls
vars == << st, div, answer, calls >>
Modes == { "constant", "no_pdf" }
Opts == Variants \X Modes \X BOOLEAN
None == <<>>

Init == st = None /\ div = 0 /\ answer = None /\ calls = <<>>
Store(o) ==
  /\ st' = IF Variant = "computeOnce" /\ st # None THEN st
           ELSE IF Variant = "modeIgnored" /\ st # None THEN << o[1], st[2], o[3] >>
           ELSE o
  /\ div' = IF Variant = "computeOnce" /\ st # None THEN div
            ELSE IF o[3] THEN (IF Variant = "normalizeTwice" THEN div + 1 ELSE 1) ELSE 0
DoCompute(o) == /\ Store(o)
                /\ answer' = None
                /\ calls' = Append(calls, [ op |-> "compute", opt |-> o ])
DoGet(o) == /\ IF st = None \/ Variant = "getRecomputes" THEN Store(o)
               ELSE UNCHANGED << st, div >>
            /\ answer' = << st', div' >>
            /\ calls' = Append(calls, [ op |-> "get", opt |-> o ])
Next == \/ /\ Len(calls) < Depth
           /\ \E o \in Opts : DoCompute(o) \/ DoGet(o)
        \/ /\ Export /\ Len(calls) = Depth
           /\ PrintT(ToJson([ ops |-> calls ]))
           /\ calls' = Append(calls, [ op |-> "end", opt |-> None ])
           /\ UNCHANGED << st, div, answer >>
Spec == Init /\ [][Next]_vars

(* The last computation: the last explicit one, or the first request if it   *)
(* came before any explicit one.                                             *)
LastOpt ==
  LET cs == { k \in 1..Len(calls) : calls[k].op = "compute" }
  IN IF cs # {} THEN calls[SetMax(cs)].opt ELSE calls[1].opt
Definition == answer # None => answer = << LastOpt, IF LastOpt[3] THEN 1 ELSE 0 >>
============================================================================
