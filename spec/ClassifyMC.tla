----------------------------- MODULE ClassifyMC -----------------------------
(* A classification network in use.  Its parameters have a version, which     *)
(* every step of training changes.  A call shows it a batch of shapes, each   *)
(* moved or reordered somehow (which does not matter), in eager or graph mode, *)
(* and returns one row per shape.  A row is right if it depends on nothing but *)
(* the version and its shape, Row(version, shape).                            *)
(* Training may see the whole batch; calls without training change nothing.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, Batch, MaxCalls, Variant
VARIABLES version, memo, rows, asked, hist
vars == << version, memo, rows, asked, hist >>

Batches == [ 1..Batch -> Shapes ]
Row(v, s) == << v, s >>
Init == version = 0 /\ memo = <<>> /\ rows = <<>> /\ asked = <<>> /\ hist = <<>>

(* what a (possibly wrong) design returns in row k                            *)
Shown(b, k) ==
  CASE Variant = "leak" -> Row(version, b[IF k = 1 THEN Len(b) ELSE k])
    [] Variant = "memo" -> IF memo # <<>> THEN Row(memo[1], b[k]) ELSE Row(version, b[k])
    [] OTHER -> Row(version, b[k])
Infer(b, mode) ==
  /\ rows' = [ k \in 1..Batch |-> Shown(b, k) ]
  /\ asked' = [ k \in 1..Batch |-> Row(version, b[k]) ]
  /\ memo' = IF memo = <<>> /\ mode = "graph" THEN << version >> ELSE memo
  /\ version' = IF Variant = "learns" THEN version + 1 ELSE version
  /\ hist' = Append(hist, [ do |-> "infer", mode |-> mode, shapes |-> b ])
Train(b, mode) ==
  /\ version' = version + 1 /\ rows' = <<>> /\ asked' = <<>>
  /\ hist' = Append(hist, [ do |-> "train", mode |-> mode, shapes |-> b ])
  /\ UNCHANGED memo
Next == /\ Len(hist) < MaxCalls
        /\ \E b \in Batches, m \in {"graph", "eager"} :
             \/ Infer(b, m)
             \/ (Len(hist) \in 1..(MaxCalls - 2) /\ Train(b, m))
Spec == Init /\ [][Next]_vars

RightRows == rows = asked
(* the version counts the steps of training                                   *)
Trained == version = Cardinality({ k \in 1..Len(hist) : hist[k].do = "train" })

View == << version, memo, rows, asked, Len(hist),
           Cardinality({ k \in 1..Len(hist) : hist[k].do = "train" }) >>
(* behaviours to replay                                                       *)
Emit == Len(hist) < MaxCalls \/ PrintT(ToJson([ calls |-> hist ]))
=============================================================================
