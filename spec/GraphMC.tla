------------------------------ MODULE GraphMC ------------------------------
(* Objects with cached values and traced functions.  Context 0 is eager       *)
(* execution; every traced function g = 1, 2, .. is a context of its own      *)
(* while it is traced.  Values created in a trace are placeholders which only *)
(* exist there; eager values can be used everywhere.  A traced function is    *)
(* recorded once and may be called again with other arguments.                *)
(*                                                                            *)
(* Objects are built from an input (number v) eagerly, or inside of a trace    *)
(* from its arguments.  Asking an object returns its cached value or computes *)
(* it.  An answer is right if it is available where it is asked for and        *)
(* belongs to the input the object was built from - for objects built inside  *)
(* of a function, the input of the current call.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Graphs, Inputs, MaxSteps, Variant
VARIABLES ctx, arg, made, home, content, cache, prog, last, hist
vars == << ctx, arg, made, home, content, cache, prog, last, hist >>

None == [ at |-> -1, val |-> 0 ]
ARG == 0                              \* "whatever the argument of the call is"
Good == [ ok |-> TRUE, want |-> 0, got |-> 0 ]

Init == /\ ctx = 0 /\ arg = 0 /\ made = 0
        /\ home = [ o \in Objs |-> -1 ] /\ content = [ o \in Objs |-> ARG ]
        /\ cache = [ o \in Objs |-> None ]
        /\ prog = [ g \in Graphs |-> <<>> ]
        /\ last = Good /\ hist = <<>>

Log(s) == hist' = Append(hist, s)
(* objects which the code running in the current context can name             *)
Visible(o) == home[o] = 0 \/ (ctx # 0 /\ home[o] = ctx)

(* a design which reads the argument while tracing keeps its value            *)
Read == IF Variant = "frozen" THEN arg ELSE ARG
Make(o, v) ==
  /\ home[o] = -1
  /\ home' = [ home EXCEPT ![o] = ctx ]
  /\ content' = [ content EXCEPT ![o] = IF ctx = 0 THEN v ELSE Read ]
  /\ Log([ do |-> "make", o |-> o, v |-> IF ctx = 0 THEN v ELSE 0, g |-> ctx ])
  /\ UNCHANGED << ctx, arg, made, cache, prog, last >>

(* where a computed value may be kept                                         *)
Keeps(o) == CASE Variant = "always" -> TRUE
              [] Variant = "never" -> FALSE
              [] OTHER -> home[o] = ctx
(* what running the instruction "value x" yields in a call with argument v    *)
Run(x, v) == IF x = ARG THEN v ELSE x
Ask(o) ==
  /\ Visible(o)
  /\ LET c == cache[o]
         hit == c # None
         x == IF hit THEN c.val ELSE content[o]
         ok == ~hit \/ c.at \in { 0, ctx }
         want == IF home[o] = 0 THEN content[o] ELSE arg
     IN /\ last' = [ ok |-> ok, want |-> want, got |-> Run(x, arg) ]
        /\ cache' = IF ~hit /\ Keeps(o)
                    THEN [ cache EXCEPT ![o] = [ at |-> ctx, val |-> x ] ] ELSE cache
        /\ prog' = IF ctx = 0 THEN prog
                   ELSE [ prog EXCEPT ![ctx] = Append(@, [ x |-> x, inner |-> home[o] # 0,
                                                           v |-> content[o] ]) ]
  /\ Log([ do |-> "ask", o |-> o, v |-> 0, g |-> ctx ])
  /\ UNCHANGED << ctx, arg, made, home, content >>

Begin(v) ==
  /\ ctx = 0 /\ made + 1 \in Graphs
  /\ ctx' = made + 1 /\ made' = made + 1 /\ arg' = v
  /\ Log([ do |-> "begin", o |-> 0, v |-> v, g |-> made + 1 ])
  /\ UNCHANGED << home, content, cache, prog, last >>
End ==
  /\ ctx # 0 /\ prog[ctx] # <<>>
  /\ ctx' = 0 /\ arg' = 0
  /\ Log([ do |-> "end", o |-> 0, v |-> 0, g |-> ctx ])
  /\ UNCHANGED << made, home, content, cache, prog, last >>
(* the recorded instructions are run with another argument                    *)
Again(g, v) ==
  /\ ctx = 0 /\ g <= made
  /\ \E k \in 1..Len(prog[g]) : LET p == prog[g][k] IN
       last' = [ ok |-> TRUE, want |-> IF p.inner THEN v ELSE p.v, got |-> Run(p.x, v) ]
  /\ Log([ do |-> "again", o |-> 0, v |-> v, g |-> g ])
  /\ UNCHANGED << ctx, arg, made, home, content, cache, prog >>

Next == /\ Len(hist) < MaxSteps
        /\ \/ \E o \in Objs, v \in Inputs : Make(o, v)
           \/ \E o \in Objs : Ask(o)
           \/ \E v \in Inputs : Begin(v)
           \/ End
           \/ \E g \in Graphs, v \in Inputs : Again(g, v)
Spec == Init /\ [][Next]_vars

Usable == last.ok
Right == last.ok => last.got = last.want
(* the second question finds the answer                                       *)
Kept == \A o \in Objs : cache[o] # None => cache[o].at = home[o]
----------------------------------------------------------------------------
(* Generation of histories                                                    *)
Emit == Len(hist) = MaxSteps => PrintT(ToJson([ steps |-> hist ]))
View == << ctx, arg, made, home, content, cache, prog, last, Len(hist) >>
=============================================================================
