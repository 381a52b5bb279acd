--------------------------------- MODULE IO ---------------------------------
(* Point files and batches of them.  A file is a sequence of rows of numbers; *)
(* numbers are integers here (the harness writes multiples of 1/8).           *)
EXTENDS PointCloud

Limit(rows, max) == IF max < 0 \/ max >= Len(rows) THEN rows ELSE SubSeq(rows, 1, max)
Head2(row, dim) == SubSeq(row, 1, Min2(dim, Len(row)))
Tail2(row, dim) == SubSeq(row, dim + 1, Len(row))
PointsOf(rows, dim) == [ i \in 1..Len(rows) |-> Head2(rows[i], dim) ]
FeaturesOf(rows, dim) == [ i \in 1..Len(rows) |-> Tail2(rows[i], dim) ]

(* padded batch, rows in row-major order: v rows per file                      *)
MaxLen(files) == SetMax({ Len(files[k]) : k \in 1..Len(files) })
PadTo(rows, v, w) == [ j \in 1..v |-> IF j <= Len(rows) THEN rows[j] ELSE Zeros(w) ]
RECURSIVE Batch(_, _, _)
Batch(files, v, w) == IF files = <<>> THEN <<>>
                      ELSE PadTo(files[1], v, w) \o Batch(Tail(files), v, w)
RECURSIVE FoldSeqCat(_)
FoldSeqCat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o FoldSeqCat(Tail(s))
SizesOf(files) == [ k \in 1..Len(files) |-> Len(files[k]) ]
=============================================================================
