------------------------------ MODULE Network ------------------------------
(* Residual networks as programs over layers.  A block takes the features of  *)
(* the points, runs the body of its kind, and adds its input, projected if    *)
(* asked for.  Every convolution of a body is preceded by a normalisation and *)
(* the activation.  Convolutions move features between the fine and the       *)
(* coarse cloud, one by one convolutions between the full and the small width.*)
EXTENDS Arith

Body(kind) ==
  CASE kind = "plain"   -> << "bn", "conv", "bn", "conv" >>
    [] kind = "neck"    -> << "bn", "down", "bn", "conv", "bn", "up" >>
    [] kind = "spatial" -> << "bn", "conv", "bn", "conv", "bn", "conv" >>
Size(kind) == Len(Body(kind))
RECURSIVE Program(_, _)
Program(kind, blocks) == IF blocks = 0 THEN <<>> ELSE Program(kind, blocks - 1) \o Body(kind)

(* width (full: TRUE) and level (fine: TRUE) before step k of a body           *)
FullBefore(kind, k) == kind # "neck" \/ k \in {1, 2, 7}
FineBefore(kind, k) == kind # "spatial" \/ k \in {1, 2, 7}

(* activation of scaled values                                                *)
Activate(act, x) == CASE act = "relu" -> Max2(x, 0)
                      [] act = "quarter" -> IF x >= 0 THEN x ELSE x \div 4
                      [] act = "identity" -> x
                      [] act = "leaky" -> IF x >= 0 THEN x ELSE (3 * x) \div 10

(* The classification networks: a chain of stages.                            *)
RECURSIVE Times(_, _)
Times(p, n) == IF n = 0 THEN <<>> ELSE p \o Times(p, n - 1)
ClassHead == << "bn", "dense", "bn", "dense" >>
Chain(kind, levels) ==
  CASE kind = "resnet" -> << "conv", "block" >> \o Times(<< "block", "block" >>, levels - 1)
                            \o << "gavg" >> \o ClassHead
    [] kind = "small"  -> Times(<< "conv", "bn", "one", "bn" >>, levels - 1)
                            \o << "conv" >> \o ClassHead
(* The two paths of a residual block: through the small width, and directly,   *)
(* pooled if the points change and projected if the width changes.             *)
Long == << "bn", "one", "bn", "conv", "bn", "one" >>
Short(strided, proj) == (IF strided THEN << "pool" >> ELSE <<>>)
                          \o (IF proj THEN << "bn", "one" >> ELSE <<>>)
=============================================================================
