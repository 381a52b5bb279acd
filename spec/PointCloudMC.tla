--------------------------- MODULE PointCloudMC ---------------------------
(* The PointCloud object with its caches (sizes, unflatten method, bounding *)
(* box), driven by arbitrary call sequences.  What a call returns must be a *)
(* function of the cloud and of the batch shape in force, never of the calls *)
(* that happened before (NoHistory).                                         *)
EXTENDS PointCloud, TLC, Json
CONSTANTS BS,        \* batch size
          Kind,      \* "segmented", "sizes" or "padded"
          Depth,     \* length of the exported call sequences, 0: no export
          Variant    \* "ok" or a wrong design
ASSUME Variant \in {"ok", "keepUnflatten", "keepAabb", "keepSizes", "cacheMax",
                    "rejectedShapeKept", "staleIndex"}
ASSUME Kind \in {"segmented", "sizes", "padded"}

VARIABLES shape,  \* batch shape in force
          cs,     \* cached sizes: None or the shape they are stored in
          cu,     \* cached unflatten: None or << shape, rows >>
          ca,     \* cached box: None or the shape it reports diameters in
          ci,     \* table of element numbers: None or the shape it is stored in
          obs,    \* last observation: << call, argument, answer >>
          hist    \* calls so far (only when exporting)
vars == << shape, cs, cu, ca, ci, obs, hist >>
None == <<>>
\* number of rows: 5 in the padded input, 3 in the largest element
Vin == 5
Vmax == 3
EffS(s) == IF s = <<>> THEN << BS >> ELSE s
Shapes == { s \in UNION { [ 1..n -> 1..BS ] : n \in 1..3 } : ProdSeq(s) = BS }
WrongShapes == { << BS + 1 >>, << BS, 2 >> }
Maxes == { 3, 5, 7 }

Init0 == IF Kind = "segmented" THEN <<>> ELSE << BS >>
Init == /\ shape = Init0
        /\ cs = IF Kind = "segmented" THEN None ELSE Init0
        /\ cu = IF Kind = "padded" THEN << Init0, Vin >> ELSE None
        /\ ca = None
        /\ ci = IF Kind = "segmented" THEN None ELSE Init0
        /\ obs = << "new", 0, << Init0 >> >>
        /\ hist = <<>>
Log(h) == IF Depth = 0 THEN hist' = hist ELSE hist' = Append(hist, h)

SizesNow == IF cs = None THEN EffS(shape) ELSE cs
FillSizes == cs' = SizesNow
GetSizes == /\ FillSizes
            /\ obs' = << "sizes", 0, SizesNow >>
            /\ Log([ op |-> "sizes" ])
            /\ UNCHANGED << shape, cu, ca >>
Flat(m) ==
     IF cu = None \/ m > 0
     THEN /\ FillSizes
          /\ obs' = << "points", m, << SizesNow, IF m > 0 THEN m ELSE Vmax >> >>
          /\ IF Variant = "cacheMax" THEN cu' = << SizesNow, IF m > 0 THEN m ELSE Vmax >>
             ELSE UNCHANGED cu
     ELSE /\ obs' = << "points", m, cu >>
          /\ UNCHANGED << cs, cu >>
GetPoints(m) ==
  /\ Flat(m)
  /\ Log([ op |-> "points", max |-> m ])
  /\ UNCHANGED << shape, ca >>
GetElement(b) ==
  /\ obs' = << "element", b, IF b \in 0..(BS - 1) THEN "rows" ELSE "IndexError" >>
  /\ Log([ op |-> "element", id |-> b ])
  /\ UNCHANGED << shape, cs, cu, ca >>
GetBox ==
  /\ ca' = IF ca = None THEN EffS(shape) ELSE ca
  /\ obs' = << "box", 0, ca' >>
  /\ Log([ op |-> "box" ])
  /\ UNCHANGED << shape, cs, cu >>
GetByIndex ==       \* one element by its index in the batch shape
  /\ shape # <<>>
  /\ obs' = << "multi", 0, ci >>
  /\ Log([ op |-> "multi" ])
  /\ UNCHANGED << shape, cs, cu, ca >>
SetShape(s) ==
  /\ shape' = s
  /\ cs' = IF cs = None \/ Variant = "keepSizes" THEN cs ELSE EffS(s)
  /\ cu' = IF Variant = "keepUnflatten" THEN cu ELSE None
  /\ ca' = IF Variant = "keepAabb" THEN ca ELSE None
  /\ ci' = IF s = <<>> \/ (Variant = "staleIndex" /\ cs = None) THEN ci ELSE s
  /\ obs' = << "set", 0, "ok" >>
  /\ Log([ op |-> "set", shape |-> s ])
SetWrong(s) ==
  /\ obs' = << "set", 0, "error" >>
  /\ shape' = IF Variant = "rejectedShapeKept" THEN s ELSE shape
  /\ Log([ op |-> "set", shape |-> s ])
  /\ UNCHANGED << cs, cu, ca >>
Unflatten(m) ==
  /\ Flat(m)
  /\ Log([ op |-> "unflatten", max |-> m ])
  /\ UNCHANGED << shape, ca >>
Features(p) ==      \* features in padded (p = 1) or flat layout to flat layout
  /\ FillSizes
  /\ obs' = << "features", p, "rows" >>
  /\ Log([ op |-> "features", padded |-> p ])
  /\ UNCHANGED << shape, cu, ca >>
Calls ==
        /\ Depth = 0 \/ Len(hist) < Depth
        /\ \/ \E s \in Shapes \cup { <<>> } : SetShape(s)
           \/ /\ UNCHANGED ci
              /\ \/ GetSizes \/ GetBox \/ GetByIndex
                 \/ \E m \in { 0 } \cup Maxes : GetPoints(m)
                 \/ \E m \in { 0 } \cup Maxes : Unflatten(m)
                 \/ \E p \in { 0, 1 } : Features(p)
                 \/ \E b \in { -2, -1, 0, BS - 1, BS, BS + 1 } : GetElement(b)
                 \/ \E s \in WrongShapes : SetWrong(s)
Export == /\ Depth > 0 /\ Len(hist) = Depth
          /\ PrintT(ToJson([ ops |-> hist ]))
          /\ hist' = Append(hist, [ op |-> "end" ])
          /\ UNCHANGED << shape, cs, cu, ca, ci, obs >>
Next == Calls \/ Export
Spec == Init /\ [][Next]_vars

(* The answer is determined by the shape in force. *)
AnswerOk(s) ==
  LET o == obs[1] IN
  CASE o = "sizes" -> obs[3] = EffS(s)
    [] o = "points" -> /\ obs[3][1] = EffS(s)
                       /\ obs[3][2] \in (IF obs[2] > 0 THEN { obs[2] }
                                         ELSE { Vmax } \cup (IF Kind = "padded" THEN { Vin } ELSE {}))
    [] o = "box" -> obs[3] = EffS(s)
    [] o = "multi" -> obs[3] = s
    [] OTHER -> TRUE
NoHistory == AnswerOk(shape)
ShapeLegal == shape # <<>> => ProdSeq(shape) = BS
============================================================================
