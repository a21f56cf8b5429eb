------------------------------- MODULE MetQuery -------------------------------
(* X01: two meteo data sets, their difference, and what the queries return.   *)
(* A sample is [t, c, v]: time, observable, value in tenths.                  *)
EXTENDS Text

CONSTANTS Times, Obs, SomeVal(_), MaxSamples

VARIABLES recs, n, len, done
vars == <<recs, n, len, done>>

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Init == recs = <<{}, {}>> /\ n = 0 /\ len = -1 /\ done = FALSE
Start == /\ len = -1 /\ len' \in Some(0..MaxSamples) /\ UNCHANGED <<recs, n, done>>
Grow == /\ len # -1 /\ n < len
        /\ \E w \in Some({1, 1, 2}) : \E t \in Some(Times) : \E c \in Some(Obs) : \E v \in SomeVal(c) :
             recs' = TLCEval([recs EXCEPT ![w] = IF \E s \in @ : s.t = t /\ s.c = c THEN @ ELSE @ \cup {[t |-> t, c |-> c, v |-> v]}])
        /\ n' = n + 1 /\ UNCHANGED <<len, done>>

Diff(a, b) == {LET hit == {o \in b : o.t = s.t /\ o.c = s.c}
               IN IF hit = {} THEN s ELSE [s EXCEPT !.v = @ - (CHOOSE h \in hit : TRUE).v] : s \in a}
Of(a, c) == {s \in a : s.c = c}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE s \in S : TRUE IN s.v + Sum(S \ {s})
Finish == /\ ~done /\ len # -1 /\ n = len
          /\ Emit([a |-> recs[1], b |-> recs[2], diff |-> Diff(recs[1], recs[2]),
                   by |-> [c \in Obs |-> Of(recs[1], c)],
                   rain |-> Sum(Of(recs[1], "RI")), hail |-> \E s \in Of(recs[1], "HI") : s.v > 0])
          /\ done' = TRUE /\ UNCHANGED <<recs, n, len>>
Next == Start \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars

SameKeys == LET d == Diff(recs[1], recs[2]) IN {<<s.t, s.c>> : s \in d} = {<<s.t, s.c>> : s \in recs[1]} /\ Cardinality(d) = Cardinality(recs[1])
SelfZero == \A s \in Diff(recs[1], recs[1]) : s.v = 0
Parted == recs[1] = UNION {Of(recs[1], c) : c \in Obs}

McVal(c) == {3, 5}
AllObs == {"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"}
SimVal(c) == {IF c \in {"RI", "HI"} THEN RandomElement({0, 0, 0, RandomElement(0..50)}) ELSE RandomElement(-9999..99999)}
===============================================================================
