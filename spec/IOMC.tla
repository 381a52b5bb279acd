-------------------------------- MODULE IOMC --------------------------------
(* Reading files line by line into one batch, then padding it.  The result    *)
(* must be the batch of the files, and the point cloud made of points and      *)
(* sizes must hold exactly the rows of the files (no padding, own slot).       *)
EXTENDS IO, TLC
CONSTANTS MaxLines, NumFiles, MaxArg, Variant
VARIABLES files, f, line, got, done, max

Rows0 == { << a >> : a \in {1, 2} }
FileSet == UNION { [ 1..n -> Rows0 ] : n \in 0..MaxLines }
Init == /\ files \in [ 1..NumFiles -> FileSet ]
        /\ max \in { -1 } \cup 1..MaxArg
        /\ f = 1 /\ line = 1 /\ got = [ k \in 1..NumFiles |-> <<>> ] /\ done = FALSE
More == /\ f <= NumFiles /\ line <= Len(files[f])
        /\ max < 0 \/ (IF Variant = "offByOne" THEN Len(got[f]) <= max ELSE Len(got[f]) < max)
ReadLine == /\ ~done /\ More
            /\ got' = [ got EXCEPT ![f] = Append(@, files[f][line]) ]
            /\ line' = line + 1 /\ UNCHANGED << files, f, done, max >>
NextFile == /\ ~done /\ f <= NumFiles /\ ~More
            /\ f' = f + 1
            /\ line' = IF Variant = "keepLine" THEN line ELSE 1
            /\ UNCHANGED << files, got, done, max >>
Finish == /\ ~done /\ f = NumFiles + 1 /\ done' = TRUE
          /\ UNCHANGED << files, f, line, got, max >>
Next == ReadLine \/ NextFile \/ Finish
vars == << files, f, line, got, done, max >>
Spec == Init /\ [][Next]_vars

Want == [ k \in 1..NumFiles |-> Limit(files[k], max) ]
ReadsTheFiles == done => got = Want
(* padding                                                                     *)
V == IF Variant = "shortPad" THEN Len(got[1]) ELSE MaxLen(got)
Sizes == IF Variant = "paddedSizes" THEN [ k \in 1..NumFiles |-> V ] ELSE SizesOf(got)
RoundTrip == done /\ V > 0 /\ (\A k \in 1..NumFiles : Sizes[k] <= V) =>
  LET c == FromPadded(Batch(got, V, 1), << NumFiles >>, V, Sizes)
  IN \A k \in 1..NumFiles : [ j \in 1..Len(Rows(c, k - 1)) |-> c.pts[Rows(c, k - 1)[j]] ] = got[k]
Fits == done => \A k \in 1..NumFiles : Len(got[k]) <= V
=============================================================================
