-------------------------------- MODULE Fold --------------------------------
(* left folds, without the other names of SequencesExt *)
EXTENDS Integers, Sequences
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(op(_, _), acc, s, k) == IF k > Len(s) THEN acc ELSE FoldFrom(op, op(acc, s[k]), s, k + 1)
FoldL(op(_, _), base, s) == FoldFrom(op, base, s, 1)
=============================================================================
