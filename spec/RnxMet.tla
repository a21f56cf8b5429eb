------------------------------- MODULE RnxMet -------------------------------
(* M01: a writer appends epochs and comments, a reader follows.               *)
EXTENDS MetText, Damage

CONSTANTS SomeCfg(_), SomeElem(_, _), MaxElems

VARIABLES cfg, n, lines, want, ends, read, st, len, done
vars == <<cfg, n, lines, want, ends, read, st, len, done>>

Init == /\ cfg = <<>> /\ n = 0 /\ lines = <<>> /\ want = <<>> /\ ends = <<>> /\ read = 0 /\ st = Idle /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<n, lines, want, ends, read, st, done>>

Write == /\ len # -1 /\ read = Len(lines) /\ n < len
         /\ \E e \in SomeElem(cfg, n) :
              /\ lines' = TLCEval(lines \o IF e.k = "epoch" THEN WEpoch(cfg, e.e) ELSE e.lines)
              /\ want' = IF e.k = "epoch" THEN Append(want, e.e) ELSE want
              /\ ends' = IF e.k = "epoch" THEN Append(ends, Len(lines')) ELSE ends
         /\ n' = n + 1
         /\ UNCHANGED <<cfg, read, st, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(cfg, st, lines[read + 1]))
        /\ UNCHANGED <<cfg, n, lines, want, ends, len, done>>

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len
          /\ Emit([cfg |-> cfg, lines |-> lines, epochs |-> want, ends |-> ends, damages |-> Plan(ends, Len(lines))])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, n, lines, want, ends, read, st, len>>

Next == Start \/ Write \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

(* whatever ends at a line that was read is held: a cut there loses nothing of it *)
Prompt == Len(st.out) >= Cardinality(Safe(ends, "cut", read))
Faithful == /\ Len(st.out) <= Len(want) /\ st.out = SubSeq(want, 1, Len(st.out))
            /\ (len # -1 /\ read = Len(lines)) => st.out = want
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 80

(* --- exhaustive: number of observables around the line limits, presence of first, eighth, ninth and last --- *)
Names == <<"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI">>
McCfg(h) == {[ver |-> v, codes |-> SubSeq(Names, 1, k), zp |-> z, trim |-> t] :
               v \in {2, 4}, k \in {1, 2, 7, 8, 9, 10}, z \in BOOLEAN, t \in BOOLEAN}
McElem(c, i) ==
  LET k == Len(c.codes) IN
  {[k |-> "epoch", e |-> [y |-> 2021, mo |-> 1, d |-> 7, h |-> 0, mi |-> i, s |-> 0,
      vals |-> [j \in 1..k |-> IF j \in p THEN (IF j % 2 = 0 THEN "-17.5" ELSE "993.3") ELSE ""]]]
     : p \in SUBSET {x \in {1, 2, 8, 9, 10} : x <= k}}
  \cup {[k |-> "note", lines |-> <<PadR(" 21  1  7  0  0  0  993.3", 60) \o "COMMENT">>]}

(* --- simulation --- *)
RVal(h) == CHOOSE z \in {IF neg THEN "-" \o u \o "." \o ToString(f) ELSE u \o "." \o ToString(f) :
              neg \in {Coin(h, 1, 4)}, f \in {RandomElement(0..9)},
              u \in {ToString(RandomElement({RandomElement(0..9), RandomElement(0..999), RandomElement(0..9999)}))}} : TRUE
SimCfg(h) == {[ver |-> RandomElement({2, 2, 3, 4}), codes |-> Draw({Names[i] : i \in 1..10}, k), zp |-> Coin(k, 1, 2), trim |-> Coin(k, 1, 2),
               y |-> RandomElement(1980..2079), mo |-> RandomElement(1..12), d |-> RandomElement(1..28), s |-> RandomElement(1..59)]
               : k \in {RandomElement({1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 9, 10, 10})}}
SimElem(c, i) ==
  {IF r = 1 THEN [k |-> "note", lines |-> <<PadR("a comment", 60) \o "COMMENT">>]
   ELSE [k |-> "epoch", e |-> [y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> i, mi |-> RandomElement(0..59), s |-> (c.s * i) % 60,
      vals |-> TLCEval([j \in 1..Len(c.codes) |-> IF r < 5 \/ Coin(j, 1, 2) THEN RVal(j) ELSE ""])]]
   : r \in {RandomElement(1..9)}}
=============================================================================
