------------------------------- MODULE ScanMC -------------------------------
(* The CUDA prefix sum of one block: T threads, 2T elements in shared memory, *)
(* an up and a down sweep of a tree with barriers.  Every thread performs its *)
(* reads and writes one by one.  The sum of the block is stored too.          *)
EXTENDS Arith, TLC
CONSTANTS T, N, Variant          \* N elements, at most 2T
ASSUME Variant \in {"ok", "noUpBarrier", "noDownBarrier", "lateSum", "inclusive"}
Elems == [ i \in 1..N |-> 2 ^ (i - 1) ]
VARIABLES tmp, el, sum, thr
vars == << tmp, el, sum, thr >>
Log2T == CHOOSE k \in 0..6 : 2 ^ k = T
(* the program of a thread: steps << name, arguments >>                      *)
At(o, t, d) == o * (2 * t + d) - 1
Up(t) == LET one(k) == LET d == 2 ^ (Log2T - k)  o == 2 ^ k IN
               (IF Variant = "noUpBarrier" /\ k > 0 THEN <<>> ELSE << << "bar" >> >>)
               \o (IF t < d THEN << << "add", At(o, t, 2), At(o, t, 1) >> >> ELSE <<>>)
             RECURSIVE go(_)
             go(k) == IF k > Log2T THEN <<>> ELSE one(k) \o go(k + 1)
         IN go(0)
Down(t) == LET one(k) == LET d == 2 ^ k  o == 2 ^ (Log2T - k) IN
               (IF Variant = "noDownBarrier" /\ k = Log2T THEN <<>> ELSE << << "bar" >> >>)
               \o (IF t < d THEN << << "get", At(o, t, 1) >>, << "move", At(o, t, 1), At(o, t, 2) >>,
                                    << "plus", At(o, t, 2) >> >> ELSE <<>>)
               RECURSIVE go(_)
               go(k) == IF k > Log2T THEN <<>> ELSE one(k) \o go(k + 1)
           IN go(0)
Load(t) == << << "load", 2 * t >>, << "load", 2 * t + 1 >> >>
Store(t) == << << "store", 2 * t >>, << "store", 2 * t + 1 >> >>
Sum(t) == IF t = 0 THEN << << "sum" >> >> ELSE <<>>
Prog(t) == Load(t) \o Up(t) \o (IF t = 0 /\ Variant # "inclusive" THEN << << "clear" >> >> ELSE <<>>)
           \o Down(t) \o << << "bar" >> >>
           \o (IF Variant = "lateSum" THEN Store(t) \o Sum(t)
               ELSE Sum(t) \o << << "bar" >> >> \o Store(t))
Progs == TLCEval([ t \in 0..(T - 1) |-> Prog(t) ])
Init == /\ tmp = [ a \in 0..(2 * T - 1) |-> 99 ] /\ el = [ a \in 0..(N - 1) |-> Elems[a + 1] ]
        /\ sum = 0 /\ thr = [ t \in 0..(T - 1) |-> [ pc |-> 1, reg |-> 0 ] ]
AtBar(t) == IF thr[t].pc > Len(Progs[t]) THEN TRUE ELSE Progs[t][thr[t].pc][1] = "bar"
Adv(t, r) == thr' = [ thr EXCEPT ![t] = [ pc |-> @.pc + 1, reg |-> r ] ]
Step(t) ==
  /\ thr[t].pc <= Len(Progs[t]) /\ ~AtBar(t)
  /\ LET s == Progs[t][thr[t].pc]  g == thr[t].reg IN
     CASE s[1] = "load" -> /\ tmp' = [ tmp EXCEPT ![s[2]] = IF s[2] < N THEN el[s[2]] ELSE 0 ]
                           /\ Adv(t, g) /\ UNCHANGED << el, sum >>
       [] s[1] = "add" -> /\ tmp' = [ tmp EXCEPT ![s[2]] = @ + tmp[s[3]] ]
                          /\ Adv(t, g) /\ UNCHANGED << el, sum >>
       [] s[1] = "clear" -> /\ tmp' = [ tmp EXCEPT ![2 * T - 1] = 0 ] /\ Adv(t, g) /\ UNCHANGED << el, sum >>
       [] s[1] = "get" -> Adv(t, tmp[s[2]]) /\ UNCHANGED << tmp, el, sum >>
       [] s[1] = "move" -> /\ tmp' = [ tmp EXCEPT ![s[2]] = tmp[s[3]] ]
                           /\ Adv(t, g) /\ UNCHANGED << el, sum >>
       [] s[1] = "plus" -> /\ tmp' = [ tmp EXCEPT ![s[2]] = @ + g ]
                           /\ Adv(t, g) /\ UNCHANGED << el, sum >>
       [] s[1] = "sum" -> /\ sum' = tmp[N - 1] + el[N - 1] /\ Adv(t, g) /\ UNCHANGED << tmp, el >>
       [] s[1] = "store" -> /\ el' = (IF s[2] < N THEN [ el EXCEPT ![s[2]] = tmp[s[2]] ] ELSE el)
                            /\ Adv(t, g) /\ UNCHANGED << tmp, sum >>
Barrier == /\ \A t \in 0..(T - 1) : AtBar(t)
           /\ \E t \in 0..(T - 1) : thr[t].pc <= Len(Progs[t])
           /\ thr' = [ t \in 0..(T - 1) |-> [ thr[t] EXCEPT !.pc = Min2(@ + 1, Len(Progs[t]) + 1) ] ]
           /\ UNCHANGED << tmp, el, sum >>
Next == Barrier \/ \E t \in 0..(T - 1) : Step(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in 0..(T - 1) : thr[t].pc > Len(Progs[t])
Before(a) == LET f(i) == Elems[i] IN SumTo(f, a)
Prefix == Done => \A a \in 0..(N - 1) : el[a] = Before(a)
BlockSum == Done => sum = Before(N)
(* two threads never use a word between the same barriers, one of them writing *)
Words(s) == CASE s[1] = "load" -> { << "t", s[2] >> }
              [] s[1] = "add" -> { << "t", s[2] >>, << "t", s[3] >> }
              [] s[1] = "clear" -> { << "t", 2 * T - 1 >> }
              [] s[1] = "get" -> { << "t", s[2] >> }
              [] s[1] = "move" -> { << "t", s[2] >>, << "t", s[3] >> }
              [] s[1] = "plus" -> { << "t", s[2] >> }
              [] s[1] = "sum" -> { << "t", N - 1 >>, << "e", N - 1 >> }
              [] s[1] = "store" -> { << "t", s[2] >>, << "e", s[2] >> }
              [] OTHER -> {}
Writes(s) == CASE s[1] \in { "load", "clear", "plus" } -> Words(s)
               [] s[1] \in { "add", "move" } -> { << "t", s[2] >> }
               [] s[1] = "store" -> { << "e", s[2] >> }
               [] OTHER -> {}
RaceFree == \A t \in 0..(T - 1), u \in 0..(T - 1) :
  (t # u /\ ~AtBar(t) /\ ~AtBar(u)) =>
    Writes(Progs[t][thr[t].pc]) \cap Words(Progs[u][thr[u].pc]) = {}
============================================================================
