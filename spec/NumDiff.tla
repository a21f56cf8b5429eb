------------------------------ MODULE NumDiff ------------------------------
(* Hatanaka numerical kernel.                                                *)
(*                                                                           *)
(* The coder and the decoder are two separate machines.  The coder of the    *)
(* specification is defined by iterated finite differences of the samples of *)
(* the current arc; the decoder by the inverse recurrence on its own table   *)
(* of backward differences (it never sees the samples).  The property C01 is *)
(* the invariant Inverse; the behaviours are replayed in the real kernel.    *)
EXTENDS Gen

CONSTANTS Capacities,   \* kernel capacities M
          MaxOrder,     \* largest order any kernel accepts
          SomeValue(_), \* sample values to choose from (argument: the history)
          MaxOps,       \* length of a behaviour
          SampleWeight, \* samples per reset, on average (simulation only)
          Scales        \* the kernel is linear: replay multiplies every value

VARIABLES cap, ops, coded, arc, level, table, decoded, done
vars == <<cap, ops, coded, arc, level, table, decoded, done>>

RECURSIVE Diff(_, _)
(* n-th backward difference at the end of sequence s *)
Diff(n, s) == IF n = 0 THEN Last(s)
              ELSE Diff(n - 1, s) - Diff(n - 1, SubSeq(s, 1, Len(s) - 1))

(* decoder: table[i] is the (i-1)-th backward difference at the last sample; *)
(* given the n-th difference d of the next sample, rebuild the table bottom up *)
RECURSIVE Rebuild(_, _, _)
Rebuild(t, n, d) == \* sequence of differences of order 0..n at the new sample
  IF n = 0 THEN <<d>>
  ELSE LET lower == t[n] + d IN Rebuild(t, n - 1, lower) \o <<d>>

Orders(m) == 1 .. Min2(m, MaxOrder)

Init == /\ cap = 0 /\ ops = <<>> /\ coded = <<>> /\ arc = <<>> /\ level = 0
        /\ table = <<>> /\ decoded = <<>> /\ done = FALSE

Start == /\ cap = 0
         /\ cap' \in Some(Capacities)
         /\ UNCHANGED <<ops, coded, arc, level, table, decoded>>

Reset == \E x \in SomeValue(ops), l \in Some(Orders(cap)) :
             /\ ops' = Append(ops, [k |-> "init", v |-> x, l |-> l])
             /\ coded' = Append(coded, x)
             /\ arc' = <<x>>
             /\ level' = l
             /\ table' = <<x>>
             /\ decoded' = Append(decoded, x)

Sample == \E x \in SomeValue(ops) :
          LET n == Min2(level, Len(arc))
              d == Diff(n, SubSeq(arc, Len(arc) - n + 1, Len(arc)) \o <<x>>)
              t == Rebuild(table, n, d)
          IN /\ ops' = Append(ops, [k |-> "sample", v |-> x, l |-> 0])
             /\ coded' = Append(coded, d)
             /\ arc' = Append(arc, x)
             /\ table' = t
             /\ decoded' = Append(decoded, t[1])
             /\ UNCHANGED level

Next == \/ Start /\ UNCHANGED done
        \/ /\ cap # 0 /\ Len(ops) < MaxOps
           /\ \/ Reset
              \/ /\ ops # <<>>
                 /\ \E i \in 1..SampleWeight : Sample
           /\ UNCHANGED <<cap, done>>
        \/ /\ ~done /\ Len(ops) = MaxOps
           /\ \E s \in Some(Scales) :
              Emit([m |-> cap, ops |-> ops, coded |-> coded, scale |-> s])
           /\ done' = TRUE
           /\ UNCHANGED <<cap, ops, coded, arc, level, table, decoded>>

Spec == Init /\ [][Next]_vars

(* C01 *)
Inverse == decoded = [i \in 1..Len(ops) |-> ops[i].v]
(* the decoder's memory is bounded by the order, i.e. nothing older matters *)
Bounded == Len(table) <= level + 1 /\ Len(table) <= Len(arc)
McValue(h) == {-1, 0, 2}
SimValue(h) == {RandomElement(-300 .. 300) * RandomElement({1, 10, 300}) + RandomElement(0 .. 300)}
=============================================================================
