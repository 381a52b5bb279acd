------------------------------- MODULE Arith -------------------------------
(* Integer helpers shared by all modules of the specification.             *)
(* TLC integers are 32 bit: every operator below keeps intermediate values *)
(* small when its documented preconditions hold.                           *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
FloorDiv(a, b) == a \div b                       \* b > 0, rounds down
CeilDiv(a, b) == -((-a) \div b)                  \* b > 0, rounds up
Clip(x, lo, hi) == Max2(lo, Min2(x, hi))
Pow2(n) == 2 ^ n

(* Sum of f(1) .. f(n) *)
SumTo(f(_), n) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0 THEN 0 ELSE go(k - 1) + f(k)
  IN go(n)
(* Sum of f(x) over a finite set *)
SumOver(f(_), S) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE
                                     IN f(x) + go(T \ {x})
  IN go(S)
ProdTo(f(_), n) ==
  LET RECURSIVE go(_)
      go(k) == IF k = 0 THEN 1 ELSE go(k - 1) * f(k)
  IN go(n)
SumSeq(s) == LET f(i) == s[i] IN SumTo(f, Len(s))
ProdSeq(s) == LET f(i) == s[i] IN ProdTo(f, Len(s))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GcdSeq(s) == LET RECURSIVE go(_)
                 go(k) == IF k = 0 THEN 0 ELSE Gcd(s[k], go(k - 1))
             IN go(Len(s))
LcmSeq(s) == LET RECURSIVE go(_)
                 go(k) == IF k = 0 THEN 1 ELSE LET m == go(k - 1) IN (m \div Gcd(m, s[k])) * s[k]
             IN go(Len(s))
Range(s) == { s[i] : i \in DOMAIN s }
Zeros(n) == [ i \in 1..n |-> 0 ]
IsPerm(s, n) == Len(s) = n /\ Range(s) = 0..(n - 1)
Count(P(_), n) == Cardinality({ i \in 1..n : P(i) })

(* floor(sqrt(n)) for 0 <= n < 2^30 *)
ISqrt(n) ==
  LET RECURSIVE go(_, _)
      go(lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2
                         IN IF m * m <= n THEN go(m, hi) ELSE go(lo, m)
  IN IF n = 0 THEN 0 ELSE go(0, 32768)

(* |a - b| <= tol, refusing the sentinel used for "not a number of that scale" *)
NAN == 2147483647
Close(a, b, tol) == a # NAN /\ Abs(a - b) <= tol
(* row-major position of a multi index *)
FlatIndex(id, shape) ==
  LET RECURSIVE go(_)
      go(d) == IF d = 0 THEN 0 ELSE go(d - 1) * shape[d] + id[d]
  IN go(Len(shape))
=============================================================================
