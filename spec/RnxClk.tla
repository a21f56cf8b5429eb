------------------------------- MODULE RnxClk -------------------------------
(* K01: a writer appends clock records, comments and records that cannot be   *)
(* decoded; a reader follows.                                                 *)
EXTENDS ClkText, Damage

CONSTANTS SomeCfg(_), SomeElem(_, _), MaxElems

VARIABLES cfg, n, lines, want, ends, read, st, len, done
vars == <<cfg, n, lines, want, ends, read, st, len, done>>

Init == /\ cfg = <<>> /\ n = 0 /\ lines = <<>> /\ want = <<>> /\ ends = <<>> /\ read = 0 /\ st = Idle /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<n, lines, want, ends, read, st, done>>

Key(e) == <<e.type, e.name, e.y, e.mo, e.d, e.h, e.mi, e.s, e.us>>

Write == /\ len # -1 /\ read = Len(lines) /\ n < len
         /\ \E e \in SomeElem(cfg, n) :
              /\ e.k = "rec" => \A i \in 1..Len(want) : Key(want[i]) # Key(e.e)
              /\ lines' = TLCEval(lines \o IF e.k = "note" THEN e.lines ELSE WRec(cfg, e.e))
              /\ want' = IF e.k = "rec" THEN Append(want, e.e) ELSE want
              /\ ends' = IF e.k = "rec" THEN Append(ends, Len(lines')) ELSE ends
         /\ n' = n + 1
         /\ UNCHANGED <<cfg, read, st, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(cfg, st, lines[read + 1]))
        /\ UNCHANGED <<cfg, n, lines, want, ends, len, done>>

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len
          /\ Emit([cfg |-> cfg, lines |-> lines, recs |-> want, ends |-> ends, damages |-> Plan(ends, Len(lines))])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, n, lines, want, ends, read, st, len>>

Next == Start \/ Write \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

(* whatever ends at a line that was read is held: a cut there loses nothing of it *)
Prompt == Len(st.out) >= Cardinality(Safe(ends, "cut", read))
Faithful == /\ Len(st.out) <= Len(want) /\ st.out = SubSeq(want, 1, Len(st.out))
            /\ (len # -1 /\ read = Len(lines)) => st.out = want /\ st.n = 0
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 85

Stars == "*******************"
Note(c) == [k |-> "note", lines |-> <<PadR("AS G01  EXPONENT MAP", IF c.old THEN 60 ELSE 65) \o "COMMENT">>]

(* --- exhaustive --- *)
V6 == <<"-0.123456789012E-03", "0.223456789012E-10", "-3.23456789012E+00", "0.000000000000E+00", "-0.523456789012E+02", "6.234567890123e-21">>
McCfg(h) == {[old |-> o, trim |-> t, zp |-> z, ts |-> "GPS"] : o \in BOOLEAN, t \in BOOLEAN, z \in {TRUE}}
McElem(c, i) ==
  {[k |-> "rec", e |-> [type |-> tn[1], name |-> tn[2], y |-> 2017, mo |-> 3, d |-> 1, h |-> 0, mi |-> m, s |-> 5, us |-> 500000 * m,
      vals |-> SubSeq(V6, 1, n6)]]
     : tn \in {<<"AR", "AREQ">>, <<"AR", "G061">>, <<"AS", "G06">>, <<"AS", "R21">>, <<"DR", "ZIM">>, <<"CR", "ZIM">>, <<"MS", "E05">>},
       m \in {0, 1}, n6 \in {1, 2, 3, 6}}
  \cup {[k |-> "bad", e |-> [type |-> "AS", name |-> "G07", y |-> 2017, mo |-> mo, d |-> 1, h |-> 0, mi |-> 0, s |-> 5, us |-> 0,
      vals |-> IF mo = 13 THEN SubSeq(V6, 1, 4) ELSE <<V6[1], Stars, V6[3]>>]] : mo \in {1, 13}}
  \cup {Note(c)}

(* --- simulation --- *)
RDig(h, k) == Z(RandomElement(0..999999), 6) \o Z(RandomElement(0..999999), 6)
RVal(h) == CHOOSE z \in {(IF neg THEN "-" ELSE "") \o (IF lead = 0 THEN "0." ELSE ToString(lead) \o ".") \o dg \o ex
                         : neg \in {Coin(h, 1, 2)}, lead \in {RandomElement({0, 0, RandomElement(1..9)})}, dg \in {RDig(h, 0)},
                           ex \in {RandomElement({"E", "E", "e"}) \o RandomElement({"-", "-", "+"}) \o Z(RandomElement({0, 0, 3, 7, 12, 25}), 2)}} : TRUE
Stations(old) == IF old THEN {"AREQ", "BRUX", "Z1M2", "GOLD", "USN", "G061", "S121", "E1", "IENG", "CAS1", "PIE1"}
                 ELSE {"AREQ00PER", "BRUX00BEL", "ZIM200CHE", "G06100FRA", "S12100AUS", "MCM400ATA", "AMC2", "ESBC00DNK", "G1", "R20500XYZ"}
SimCfg(h) == {[old |-> Coin(h, 1, 2), trim |-> Coin(h + 1, 1, 2), zp |-> Coin(h + 2, 1, 2), ts |-> RandomElement({"GPS", "GAL", "UTC", "TAI", "BDT", "GLO", "QZS", ""}),
               y |-> RandomElement(1980..2079), mo |-> RandomElement(1..12), d |-> RandomElement(1..28)]}
SimElem(c, i) ==
  {IF r = 1 THEN Note(c)
   ELSE LET e == CHOOSE z \in {[type |-> t, name |-> nm, y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> i \div 3, mi |-> RandomElement({0, 30}), s |-> RandomElement({0, 0, 0, 30, 59}),
                     us |-> RandomElement({0, 0, 500000, RandomElement(0..9) * 100000, RandomElement(0..999999)}),
                     vals |-> TLCEval([j \in 1..k |-> RVal(j)])]
                   : t \in {tp}, nm \in {IF tp \in {"AS", "MS"} THEN RandomElement({"G", "R", "E", "C", "J"}) \o Z(RandomElement(1..32), 2)
                                         ELSE RandomElement(Stations(c.old))},
                     k \in {RandomElement({1, 2, 2, 2, 3, 4, 5, 6})}} : TRUE
        IN IF r = 2 THEN [k |-> "bad", e |-> [e EXCEPT !.mo = 13]]
           ELSE IF r = 3 THEN [k |-> "bad", e |-> [e EXCEPT !.vals[RandomElement(1..Len(e.vals))] = Stars]]
           ELSE [k |-> "rec", e |-> e]
   : r \in {RandomElement(1..14)}, tp \in {RandomElement(Types)}}
=============================================================================
