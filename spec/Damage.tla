------------------------------- MODULE Damage -------------------------------
(* R02: what happens to a body on its way, and which of its entries must not  *)
(* notice.  An entry is a run of lines: it begins where the previous one ends *)
(* (comments and undecodable content belong to the entry that follows).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"cut", "damage", "loss"}

Begin(ends, i) == IF i = 1 THEN 0 ELSE ends[i - 1]
(* cut after line `at`, or line `at + 1` damaged or lost *)
Safe(ends, kind, at) ==
  {i \in 1..Len(ends) : IF kind = "cut" THEN ends[i] <= at ELSE ~(Begin(ends, i) <= at /\ at < ends[i])}

Rnd(S) == CHOOSE z \in {RandomElement(S)} : TRUE
Ascending(S) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]
One(ends, kind, at) == [kind |-> kind, at |-> at, safe |-> Ascending(Safe(ends, kind, at))]

(* a few accidents for a body of n lines: anywhere, and right where entries begin *)
Plan(ends, n) ==
  LET edges == {0, n} \cup {ends[i] : i \in 1..Len(ends)}
      at(i) == CHOOSE z \in {IF c THEN e ELSE a : c \in {RandomElement(1..2) = (i % 2) + 1}, e \in {RandomElement(edges)}, a \in {RandomElement(0..n)}} : TRUE
      kind(i) == CHOOSE z \in {IF i <= 5 THEN "cut" ELSE IF k = 1 THEN "loss" ELSE "damage" : k \in {RandomElement(1..4)}} : TRUE
  IN TLCEval([i \in 1..11 |-> CHOOSE z \in {One(ends, IF a = n THEN "cut" ELSE k, a) : k \in {kind(i)}, a \in {at(i)}} : TRUE])

=============================================================================
