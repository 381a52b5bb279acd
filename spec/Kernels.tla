------------------------------ MODULE Kernels ------------------------------
(* Kernel point templates, described up to rotation by their Gram matrices:   *)
(* each template is a center at the origin and classes of points; a class has *)
(* a size and the list of the inner products of one of its points with all    *)
(* points other than the center, scaled by 2^14 and sorted.                   *)
EXTENDS Arith
One == 16384
Rep(n, x) == [ i \in 1..n |-> x ]

(* regular simplex, octahedron, icosahedron (1/sqrt 5)                        *)
Simplex == { << 4, Rep(3, -5461) \o Rep(1, One) >> }
Octahedron == { << 6, Rep(1, -One) \o Rep(4, 0) \o Rep(1, One) >> }
Icosahedron == { << 12, Rep(1, -One) \o Rep(5, -7327) \o Rep(5, 7327) \o Rep(1, One) >> }
(* poles and two hexagons of radius 1/2 at height sqrt(3)/2, turned by 30 deg  *)
HexPrism == { << 2, Rep(1, -One) \o Rep(6, -14189) \o Rep(6, 14189) \o Rep(1, One) >>,
              << 12, Rep(2, -15835) \o Rep(1, -14189) \o Rep(2, -12288) \o Rep(2, -8741)
                     \o Rep(1, 8192) \o Rep(2, 10240) \o Rep(1, 14189) \o Rep(2, 14336)
                     \o Rep(1, One) >> }
(* poles, pentagon of radius 1 in the plane, flipped, two of radius 1/sqrt 2   *)
(* at heights 1/2 and -1/2 (the lower one flipped)                            *)
Pentagons == { << 2, Rep(1, -One) \o Rep(5, -8192) \o Rep(5, 0) \o Rep(5, 8192) \o Rep(1, One) >>,
               << 5, Rep(1, -11585) \o Rep(2, -13255) \o Rep(2, -9373) \o Rep(2, -3580)
                     \o Rep(2, 0) \o Rep(2, 3580) \o Rep(2, 5063) \o Rep(2, 9373)
                     \o Rep(1, 11585) \o Rep(1, One) >>,
               << 5, Rep(1, -12288) \o Rep(1, -11585) \o Rep(1, -8192) \o Rep(2, -6627)
                     \o Rep(2, -3580) \o Rep(2, -2531) \o Rep(2, 2531) \o Rep(2, 6627)
                     \o Rep(1, 8192) \o Rep(2, 9373) \o Rep(1, 12288) >>,
               << 5, Rep(1, -12288) \o Rep(1, 11585) \o Rep(1, -8192) \o Rep(2, -6627)
                     \o Rep(2, 3580) \o Rep(2, -2531) \o Rep(2, 2531) \o Rep(2, 6627)
                     \o Rep(1, 8192) \o Rep(2, -9373) \o Rep(1, 12288) >> }
Template(n) == CASE n = 5 -> Simplex [] n = 7 -> Octahedron [] n = 13 -> Icosahedron
                 [] n = 15 -> HexPrism [] n = 18 -> Pentagons
Templates == { 5, 7, 13, 15, 18 }

(* a row of inner products matches a list, as multisets up to tol              *)
SameBag(row, list, tol) ==
  Len(row) = Len(list) /\
  \A i \in 1..Len(list) :
    Cardinality({ k \in 1..Len(row) : Close(row[k], list[i], tol) })
      = Cardinality({ k \in 1..Len(list) : Abs(list[k] - list[i]) <= tol })
Scaled(list, num, den) == [ i \in 1..Len(list) |-> (list[i] * num) \div den ]

(* gram: matrix of all points, the first of them the center                    *)
Matches(gram, n, num, den, tol) ==
  /\ Len(gram) = n
  /\ \A i \in 1..n : Close(gram[1][i], 0, tol) /\ Close(gram[i][1], 0, tol)
  /\ \A c \in Template(n) :
       Cardinality({ i \in 2..n : SameBag(Tail(gram[i]), Scaled(c[2], num, den), tol) }) = c[1]

Dot3(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
Det3(a, b, c) == a[1] * ((b[2] * c[3]) - (b[3] * c[2]))
               - a[2] * ((b[1] * c[3]) - (b[3] * c[1]))
               + a[3] * ((b[1] * c[2]) - (b[2] * c[1]))
=============================================================================
