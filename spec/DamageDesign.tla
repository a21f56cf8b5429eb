---------------------------- MODULE DamageDesign ----------------------------
(* R02, design: small bodies, every accident, one after the other.            *)
EXTENDS Damage
CONSTANT MaxLines
VARIABLES size, es, here, safe
vars == <<size, es, here, safe>>
Bodies(k) == UNION {{e \in [1..m -> 1..k] : \A i \in 1..m : i > 1 => e[i - 1] < e[i]} : m \in 0..k}
Init == /\ size \in 0..MaxLines /\ es \in Bodies(size)
        /\ here = [l \in 1..size |-> l] /\ safe = 1..Len(es)
(* here: the lines that are left; a damaged line is none of the original ones *)
Cut(at) == here' = SubSeq(here, 1, at) /\ safe' = {i \in safe : \A l \in (Begin(es, i) + 1)..es[i] : \E k \in 1..at : here[k] = l}
Damaged(at) == here' = [here EXCEPT ![at + 1] = 0] /\ safe' = {i \in safe : ~(Begin(es, i) < here[at + 1] /\ here[at + 1] <= es[i])}
Lost(at) == here' = SubSeq(here, 1, at) \o SubSeq(here, at + 2, Len(here)) /\ safe' = {i \in safe : ~(Begin(es, i) < here[at + 1] /\ here[at + 1] <= es[i])}
Fresh == here = [l \in 1..size |-> l]
Next == \E at \in 0..Len(here) :
          /\ UNCHANGED <<size, es>>
          /\ Cut(at) \/ (at < Len(here) /\ (Damaged(at) \/ Lost(at)))
Spec == Init /\ [][Next]_vars

(* an entry is safe exactly when each of its lines is left, one after the other *)
Whole(i) == \E k \in 0..Len(here) : k + es[i] - Begin(es, i) <= Len(here) /\ \A l \in (Begin(es, i) + 1)..es[i] : here[k + l - Begin(es, i)] = l
SafeIsWhole == \A i \in 1..Len(es) : i \in safe <=> Whole(i)
(* Safe is what the first accident leaves, and one damaged line costs one entry at most *)
FirstAccident == [][Fresh => \E at \in 0..size : \E k \in Kinds : safe' = Safe(es, k, at) /\ (k # "cut" => Cardinality(safe \ safe') <= 1)]_vars
=============================================================================
