-------------------------------- MODULE Gen --------------------------------
(* Shared by every module: how nondeterminism is resolved and how a finished *)
(* behaviour leaves the model checker.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

(* Exhaustive runs enumerate Some(S); simulation configurations override it  *)
(* by SomeRnd, which draws one element, so that large domains stay cheap.    *)
Some(S) == S
SomeRnd(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* A finished behaviour is printed as one JSON line.                         *)
Emit(x) == PrintT(ToJson(x))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Last(s) == s[Len(s)]
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

RECURSIVE SortedSeq(_)     \* ascending sequence of a set of integers
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == SetMin(S) IN <<m>> \o SortedSeq(S \ {m})
=============================================================================
