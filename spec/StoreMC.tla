------------------------------ MODULE StoreMC ------------------------------
(* The CUDA kernel which stores the neighbors of all centers in one array.   *)
(* Threads take the found neighbors in any order and interleave; each center *)
(* has its counter (of its part of the array) and, with a limit, a second    *)
(* one which counts how many of its neighbors were seen.                     *)
EXTENDS Arith, TLC
CONSTANTS F1, F2,     \* number of neighbors found for each center
          Limit, Threads, Variant
ASSUME Variant \in {"ok", "oneCounter", "sharedSlots", "plainCounter", "wholeRow"}
Found == << F1, F2 >>
C == 1..Len(Found)
Tasks == { << j, k >> : j \in C, k \in 1..SetMax(Range(Found)) }
Work == { t \in Tasks : t[2] <= Found[t[1]] }
Len_(j) == IF Limit = 0 THEN Found[j] ELSE Min2(Found[j], Limit)
Start(j) == LET f(i) == Len_(i) IN SumTo(f, j - 1)
Total == Start(Len(Found)) + Len_(Len(Found))
VARIABLES todo, thr, seen, next, arr, drop
vars == << todo, thr, seen, next, arr, drop >>
Idle == [ pc |-> "idle", t |-> << 0, 0 >>, slot |-> 0, old |-> 0 ]
Init == /\ todo = Work /\ thr = [ i \in 1..Threads |-> Idle ]
        /\ seen = [ j \in C |-> 0 ] /\ next = [ j \in C |-> Start(j) ]
        /\ arr = [ s \in 0..(Total - 1) |-> << 0, 0 >> ] /\ drop = FALSE
Set(i, r) == thr' = [ thr EXCEPT ![i] = r ]
Take(i) == /\ thr[i].pc = "idle"
           /\ \E t \in todo : /\ todo' = todo \ { t }
                              /\ Set(i, [ Idle EXCEPT !.pc = "count", !.t = t ])
           /\ UNCHANGED << seen, next, arr, drop >>
(* the counter of the neighbors seen decides who gets a place                *)
Count_(i) ==
  /\ thr[i].pc = "count"
  /\ LET j == thr[i].t[1]
         first == IF Variant = "oneCounter" THEN next[j] < Limit ELSE seen[j] < Limit
     IN IF Limit = 0 THEN Set(i, [ thr[i] EXCEPT !.pc = "place" ]) /\ UNCHANGED seen
        ELSE /\ seen' = [ seen EXCEPT ![j] = @ + 1 ]
             /\ IF first THEN Set(i, [ thr[i] EXCEPT !.pc = "place" ])
                ELSE \/ Set(i, Idle)
                     \/ \E s \in 0..(Limit - 1) :
                          Set(i, [ thr[i] EXCEPT !.pc = "put", !.slot =
                                 IF Variant = "sharedSlots" THEN s ELSE Start(j) + s ])
  /\ UNCHANGED << todo, next, arr, drop >>
Place(i) ==
  /\ thr[i].pc = "place"
  /\ LET j == thr[i].t[1] IN
     IF Variant = "plainCounter"
     THEN Set(i, [ thr[i] EXCEPT !.pc = "place2", !.old = next[j] ]) /\ UNCHANGED next
     ELSE /\ next' = [ next EXCEPT ![j] = @ + 1 ]
          /\ Set(i, [ thr[i] EXCEPT !.pc = "putboth", !.slot = next[j] ])
  /\ UNCHANGED << todo, seen, arr, drop >>
Place2(i) ==
  /\ thr[i].pc = "place2"
  /\ next' = [ next EXCEPT ![thr[i].t[1]] = thr[i].old + 1 ]
  /\ Set(i, [ thr[i] EXCEPT !.pc = "putboth", !.slot = thr[i].old ])
  /\ UNCHANGED << todo, seen, arr, drop >>
(* writes leave the array only in a wrong design                             *)
Put(i, both) ==
  /\ thr[i].pc = (IF both THEN "putboth" ELSE "put")
  /\ LET s == thr[i].slot IN
     IF s \notin DOMAIN arr THEN drop' = TRUE /\ UNCHANGED arr /\ Set(i, Idle)
     ELSE /\ arr' = [ arr EXCEPT ![s][1] = thr[i].t[2],
                                 ![s][2] = IF ~both /\ Variant = "wholeRow" THEN 0 ELSE @ ]
          /\ Set(i, IF both THEN [ thr[i] EXCEPT !.pc = "owner" ] ELSE Idle)
          /\ UNCHANGED drop
  /\ UNCHANGED << todo, seen, next >>
Owner(i) ==
  /\ thr[i].pc = "owner"
  /\ arr' = [ arr EXCEPT ![thr[i].slot][2] = thr[i].t[1] ]
  /\ Set(i, Idle) /\ UNCHANGED << todo, seen, next, drop >>
Next == \E i \in 1..Threads : \/ Take(i) \/ Count_(i) \/ Place(i) \/ Place2(i)
                              \/ Put(i, TRUE) \/ Put(i, FALSE) \/ Owner(i)
Spec == Init /\ [][Next]_vars

Done == todo = {} /\ \A i \in 1..Threads : thr[i].pc = "idle"
Part(j) == { s \in DOMAIN arr : Start(j) <= s /\ s < Start(j) + Len_(j) }
InArray == ~drop
Placed == Done => \A j \in C : \A s \in Part(j) :
            arr[s][2] = j /\ arr[s][1] \in 1..Found[j]
Distinct == Done => \A j \in C :
            Cardinality({ arr[s][1] : s \in Part(j) }) = Cardinality(Part(j))
Ends == Done => \A j \in C : next[j] = Start(j) + Len_(j)
============================================================================
