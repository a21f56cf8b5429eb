------------------------------- MODULE RnxDor -------------------------------
(* D01: a writer appends epochs and comments to a DORIS file, a reader follows. *)
EXTENDS DorText, Damage

CONSTANTS SomeCfg(_), SomeElem(_, _), MaxElems

VARIABLES cfg, n, lines, want, ends, read, st, len, done
vars == <<cfg, n, lines, want, ends, read, st, len, done>>

Init == /\ cfg = <<>> /\ n = 0 /\ lines = <<>> /\ want = <<>> /\ ends = <<>> /\ read = 0 /\ st = Idle /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<n, lines, want, ends, read, st, done>>

Write == /\ len # -1 /\ read = Len(lines) /\ n < len
         /\ \E e \in SomeElem(cfg, n) :
              /\ lines' = TLCEval(lines \o IF e.k = "epoch" THEN WEpoch(e.e) ELSE e.lines)
              /\ want' = IF e.k = "epoch" THEN Append(want, e.e) ELSE want
              /\ ends' = IF e.k = "epoch" THEN Append(ends, Len(lines')) ELSE ends
         /\ n' = n + 1
         /\ UNCHANGED <<cfg, read, st, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(cfg, st, lines[read + 1]))
        /\ UNCHANGED <<cfg, n, lines, want, ends, len, done>>

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len
          /\ Emit([cfg |-> cfg, head |-> WHead(cfg), lines |-> lines, epochs |-> want, ends |-> ends, damages |-> Plan(ends, Len(lines)),
                   shifts |-> [i \in 1..Len(cfg.stations) |-> Shift(cfg.stations[i])]])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, n, lines, want, ends, read, st, len>>

Next == Start \/ Write \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

Prompt == Len(st.out) >= Cardinality(Safe(ends, "cut", read))
Faithful == /\ Len(st.out) <= Len(want) /\ st.out = SubSeq(want, 1, Len(st.out))
            /\ (len # -1 /\ read = Len(lines)) => st.out = want
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 83
Header == len # -1 => /\ \A i \in 1..Len(cfg.stations) : RStation(WStation(cfg.stations[i])) = cfg.stations[i]
                      /\ \A i \in 1..Len(WHead(cfg)) : Len(WHead(cfg)[i]) \in 61..80

Names == <<"L1", "L2", "C1", "C2", "W1", "W2", "F", "P", "T", "H">>
NoScale == <<>>
Here == [y |-> 2018, mo |-> 6, d |-> 13, h |-> 0, mi |-> 0, s |-> 28, ns |-> 853316100]

(* --- exhaustive: number of observables around the width of a line, which of them are present, up to two stations --- *)
McStations == <<[key |-> 3, label |-> "OWFC", site |-> "OWENGA", domes |-> "50253S002", gen |-> 3, kf |-> 0],
                [key |-> 12, label |-> "GR4B", site |-> "GRASSE ONE TWO", domes |-> "10002S019", gen |-> 4, kf |-> 0 - 15]>>
McCfg(h) == {[name |-> "CRYOSAT-2", obs |-> SubSeq(Names, 1, k), scale |-> NoScale, offset |-> "2.000", stations |-> McStations, first |-> Here]
               : k \in {1, 4, 5, 6, 10}}
McElem(c, i) ==
  LET k == Len(c.obs) IN
  {[k |-> "epoch", e |-> [y |-> 2018, mo |-> 6, d |-> 13, h |-> 0, mi |-> i, s |-> 3, ns |-> 179947800, flag |-> i, clk |-> "-4.326631626",
      ext |-> ToString(i), seen |-> [q \in 1..Len(w) |-> [key |-> w[q], vals |-> [j \in 1..k |->
          IF j \in p THEN [v |-> "-677713.668", m1 |-> IF q = 1 THEN "1" ELSE "", m2 |-> IF j % 2 = 0 THEN "7" ELSE ""]
          ELSE [v |-> "", m1 |-> "", m2 |-> ""]]]]]]
     : w \in {<<>>, <<12>>, <<3, 12>>, <<12, 3>>}, p \in SUBSET {x \in {1, 5, 6, 10} : x <= k}}
  \cup {[k |-> "note", lines |-> <<PadR("> 2018 06 13 00 00 33.179947800  0  1", 60) \o "COMMENT">>]}

(* --- simulation --- *)
Digits3(h) == Z(RandomElement(0..999), 3)
RVal(h) == CHOOSE z \in {IF neg THEN "-" \o u \o "." \o f ELSE u \o "." \o f :
              neg \in {Coin(h, 1, 3)}, f \in {Digits3(h)},
              u \in {ToString(RandomElement({RandomElement(0..9), RandomElement(0..99999), RandomElement(1..99999) * 10000 + 1234}))}} : TRUE
RFlag(h) == IF Coin(h, 1, 3) THEN "" ELSE ToString(RandomElement(0..9))
RCell(h) == CHOOSE z \in {IF v = "" THEN [v |-> "", m1 |-> "", m2 |-> ""] ELSE [v |-> v, m1 |-> a, m2 |-> b] :
              v \in {IF Coin(h, 1, 5) THEN "" ELSE RVal(h)}, a \in {RFlag(h)}, b \in {RFlag(h)}} : TRUE
Labels == <<"THUB", "SVBC", "YEMB", "JIWC", "MLAC", "GR4B", "TLSB", "KOLB", "BETB", "PDOC">>
Sites == <<"THULE", "NY-ALESUND II", "STE. ANNE", "ST JOHN'S", "TRISTAN DA CUNHA", "CACHOEIRA PAULISTA WEST SITE", "A", "RIO GRANDE 2", "MALE", "X Y Z">>
SimStations(h) ==
  CHOOSE z \in {[i \in 1..Len(ks) |-> [key |-> ks[i], label |-> Labels[((i - 1) % 10) + 1], site |-> Sites[RandomElement(1..10)],
        domes |-> Z(RandomElement(10000..99999), 5) \o (IF Coin(i, 1, 2) THEN "S" ELSE "M") \o Z(RandomElement(1..999), 3), gen |-> RandomElement(1..4),
        kf |-> RandomElement({0, 0, RandomElement(0 - 99..127)})]]
     : ks \in {LET s == {RandomElement(1..99) : x \in 1..RandomElement(1..12)} IN
               IF Coin(h, 1, 3) THEN [i \in 1..Cardinality(s) |-> i] ELSE SortedSeq(s)}} : TRUE
SimScale(codes) ==
  LET cs == {codes[i] : i \in 1..Len(codes)} \cap {"C1", "C2", "L1", "L2"} IN
  IF cs = {} \/ Coin(cs, 1, 4) THEN NoScale
  ELSE CHOOSE z \in {IF k >= Len(p) \/ k = 0 THEN <<[factor |-> f, codes |-> p]>>
                     ELSE <<[factor |-> f, codes |-> SubSeq(p, 1, k)], [factor |-> 1000 \div f, codes |-> SubSeq(p, k + 1, Len(p))]>>
        : p \in {Draw(cs, RandomElement(1..Cardinality(cs)))}, f \in {RandomElement({1, 10, 100, 1000})}, k \in {RandomElement(0..3)}} : TRUE
SimCfg(h) == {[name |-> RandomElement({"CRYOSAT-2", "JASON-3", "SENTINEL-3A", "HY 2C", "S6"}), obs |-> o, scale |-> SimScale(o),
               offset |-> RandomElement({"2.000", "0.000", "-1.500", "12.345"}), stations |-> TLCEval(SimStations(o)),
               first |-> [y |-> RandomElement(1990..2079), mo |-> RandomElement(1..12), d |-> RandomElement(1..28), h |-> RandomElement(0..23),
                          mi |-> RandomElement(0..59), s |-> RandomElement(0..59), ns |-> RandomElement(0..9999999) * 100]]
               : o \in {IF Coin(h, 1, 2) THEN Names ELSE Draw({Names[i] : i \in 1..10}, RandomElement(1..10))}}
SimElem(c, i) ==
  {IF r = 1 THEN [k |-> "note", lines |-> <<PadR("a comment", 60) \o "COMMENT">>]
   ELSE [k |-> "epoch", e |-> [y |-> c.first.y, mo |-> c.first.mo, d |-> c.first.d, h |-> i, mi |-> RandomElement(0..59),
      s |-> RandomElement(0..59), ns |-> RandomElement({0, 179947800, RandomElement(0..999999999)}), flag |-> RandomElement({0, 0, 1}),
      clk |-> (IF Coin(r, 1, 2) THEN "-" ELSE "") \o ToString(RandomElement(0..9)) \o "." \o Z(RandomElement(0..999999999), 9),
      ext |-> RandomElement({"0", "1"}),
      seen |-> TLCEval(LET ks == Draw({c.stations[q].key : q \in 1..Len(c.stations)}, RandomElement(0..Min2(4, Len(c.stations)))) IN
               [q \in 1..Len(ks) |-> [key |-> ks[q], vals |-> [j \in 1..Len(c.obs) |-> RCell(j)]]])]]
   : r \in {RandomElement(1..9)}}
=============================================================================
