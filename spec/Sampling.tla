------------------------------ MODULE Sampling ------------------------------
(* Sampling analysis (S01).                                                  *)
(*                                                                           *)
(* Epochs arrive in any order.  The analysis is kept incrementally: an epoch *)
(* that lands between two others splits their interval, one that lands       *)
(* outside adds one.  Consistent says that the incremental analysis is the   *)
(* one of the chronologically sorted list.  The epochs of each behaviour are *)
(* then stored, in the order of arrival, in real records of every kind and   *)
(* the real analysis is compared with the final state.                       *)
EXTENDS Gen

CONSTANTS Ticks(_),     \* instants to choose from (argument: history)
          MaxEpochs,
          Units,        \* one tick, as an index into the harness' table
          Bases,        \* epoch of tick 0, index
          Kinds,        \* kind of record
          Tolerances(_) \* tolerance in ticks (argument: history)

VARIABLES order,   \* ticks, in order of arrival
          pairs,   \* set of <<a, b>>: consecutive epochs
          hist,    \* interval -> number of pairs
          want,    \* number of epochs of this behaviour
          done
vars == <<order, pairs, hist, want, done>>

Present == {order[i] : i \in 1..Len(order)}
Below(t) == {x \in Present : x < t}
Above(t) == {x \in Present : x > t}

Inc(h, d) == IF d \in DOMAIN h THEN [h EXCEPT ![d] = @ + 1]
             ELSE [x \in DOMAIN h \cup {d} |-> IF x = d THEN 1 ELSE h[x]]
Dec(h, d) == IF h[d] = 1 THEN [x \in DOMAIN h \ {d} |-> h[x]]
             ELSE [h EXCEPT ![d] = @ - 1]

Init == /\ order = <<>> /\ pairs = {} /\ hist = [x \in {} |-> 0]
        /\ want = -1 /\ done = FALSE

Start == /\ want = -1
         /\ want' \in Some(0..MaxEpochs)
         /\ UNCHANGED <<order, pairs, hist, done>>

Insert == /\ Len(order) < want
          /\ \E t \in Ticks(order) :
               /\ t \notin Present
               /\ order' = Append(order, t)
               /\ LET b == Below(t)
                      a == Above(t)
                  IN CASE b = {} /\ a = {} -> UNCHANGED <<pairs, hist>>
                       [] b = {} /\ a # {} ->
                            /\ pairs' = pairs \cup {<<t, SetMin(a)>>}
                            /\ hist' = Inc(hist, SetMin(a) - t)
                       [] b # {} /\ a = {} ->
                            /\ pairs' = pairs \cup {<<SetMax(b), t>>}
                            /\ hist' = Inc(hist, t - SetMax(b))
                       [] OTHER ->
                            /\ pairs' = (pairs \ {<<SetMax(b), SetMin(a)>>})
                                          \cup {<<SetMax(b), t>>, <<t, SetMin(a)>>}
                            /\ hist' = TLCEval(Inc(Inc(Dec(hist, SetMin(a) - SetMax(b)),
                                           t - SetMax(b)), SetMin(a) - t))
          /\ UNCHANGED <<want, done>>

(* a draw that hits a tick already present is simply redrawn *)
Redraw == /\ Len(order) < want /\ UNCHANGED vars

HistSeq(h) == [i \in 1..Cardinality(DOMAIN h) |->
                 LET ks == SortedSeq(DOMAIN h) IN <<ks[i], h[ks[i]]>>]
Modes(h) == {d \in DOMAIN h : \A e \in DOMAIN h : h[e] <= h[d]}
GapsOver(tol) == {p \in pairs : p[2] - p[1] > tol}
RECURSIVE PairSeq(_)
PairSeq(S) == IF S = {} THEN <<>>
              ELSE LET p == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
                   IN <<<<p[1], p[2] - p[1]>>>> \o PairSeq(S \ {p})

Finish == /\ ~done /\ Len(order) = want
          /\ \E k \in Some(Kinds), u \in Some(Units), b \in Some(Bases), tol \in Tolerances(order) :
             Emit([kind |-> k, unit |-> u, base |-> b, tol |-> tol, order |-> order,
                   sorted |-> SortedSeq(Present), hist |-> HistSeq(hist),
                   modes |-> SortedSeq(Modes(hist)),
                   gaps |-> PairSeq(GapsOver(tol)),
                   gapsby |-> [i \in 1..Cardinality(Modes(hist)) |->
                                 PairSeq(GapsOver(SortedSeq(Modes(hist))[i]))],
                   steady |-> Cardinality(DOMAIN hist) = 1])
          /\ done' = TRUE
          /\ UNCHANGED <<order, pairs, hist, want>>

Next == Start \/ Insert \/ Redraw \/ Finish
Spec == Init /\ [][Next]_vars

(* --- properties of the specification --- *)
Consistent ==
  LET s == SortedSeq(Present)
  IN /\ pairs = {<<s[i], s[i+1]>> : i \in 1..(Len(s) - 1)}
     /\ \A d \in DOMAIN hist :
          hist[d] = Cardinality({i \in 1..(Len(s) - 1) : s[i+1] - s[i] = d})
     /\ \A i \in 1..(Len(s) - 1) : s[i+1] - s[i] \in DOMAIN hist
(* the intervals tile the whole duration *)
RECURSIVE Total(_)
Total(ks) == IF ks = <<>> THEN 0 ELSE Head(ks)[1] * Head(ks)[2] + Total(Tail(ks))
Tiling == Present # {} => Total(HistSeq(hist)) = SetMax(Present) - SetMin(Present)
(* nothing is further apart than the largest interval *)
Extremes == hist # [x \in {} |-> 0] => GapsOver(SetMax(DOMAIN hist)) = {}

McTicks(h) == 0..7
McTol(h) == {0, 1, 2, 3}
(* mostly regular, with holes and a few strays *)
SimTicks(h) == {LET r == RandomElement(1..10)
                IN CASE r <= 7 -> 10 * Len(h)
                     [] r = 8 -> 10 * RandomElement(0 .. Max2(1, 2 * Len(h)))
                     [] r = 9 -> RandomElement(0..400)
                     [] OTHER -> -RandomElement(1..400)}
SimTol(h) == {RandomElement({0, 1, 9, 10, 11, 20, 25, 100})}
=============================================================================
