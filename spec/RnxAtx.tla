------------------------------- MODULE RnxAtx -------------------------------
(* A01: a writer appends antenna blocks and comments; a reader follows, and   *)
(* looks antennas up.                                                         *)
EXTENDS AtxText, Damage

CONSTANTS SomeCfg(_), SomeElem(_, _, _), SomeQuery(_, _), MaxElems

VARIABLES cfg, n, lines, ants, ends, read, st, len, queries, done
vars == <<cfg, n, lines, ants, ends, read, st, len, queries, done>>

Init == /\ cfg = <<>> /\ n = 0 /\ lines = <<>> /\ ants = <<>> /\ ends = <<>> /\ read = 0 /\ st = Idle /\ len = -1 /\ queries = <<>> /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<n, lines, ants, ends, read, st, queries, done>>

(* comments may stand between any two lines of a block *)
Spliced(ls, at, note) == IF at > Len(ls) THEN ls ELSE SubSeq(ls, 1, at) \o <<note>> \o SubSeq(ls, at + 1, Len(ls))
Note == Lab("START OF ANTENNA  NORTH / EAST / UP", "COMMENT")

Write == /\ len # -1 /\ read = Len(lines) /\ n < len
         /\ \E e \in SomeElem(cfg, n, ants) :
              IF e.k = "note" THEN lines' = Append(lines, Note) /\ ants' = ants /\ ends' = ends
              ELSE /\ lines' = TLCEval(lines \o Spliced(WAnt(e.a), e.at, Note))
                   /\ ants' = Append(ants, e.a)
                   /\ ends' = Append(ends, Len(lines'))
         /\ n' = n + 1
         /\ UNCHANGED <<cfg, read, st, len, queries, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(st, lines[read + 1]))
        /\ UNCHANGED <<cfg, n, lines, ants, ends, len, queries, done>>

Ask == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len /\ queries = <<>>
       /\ \E q \in SomeQuery(cfg, st.ants) : queries' = TLCEval([i \in 1..Len(q) |-> [q |-> q[i], neu |-> Answer(st.ants, q[i]), valid |-> ValidAt(st.ants, q[i].t)]])
       /\ UNCHANGED <<cfg, n, lines, ants, ends, read, st, len, done>>

(* blocks that can be decoded, and where they end *)
Fine(a) == \A i \in 1..Len(a.freqs) : ~a.freqs[i].bad
GoodEnds == LET z == SelectSeq([i \in 1..Len(ants) |-> <<ants[i], ends[i]>>], LAMBDA x : Fine(x[1])) IN [i \in 1..Len(z) |-> z[i][2]]

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len /\ queries # <<>>
          /\ Emit([cfg |-> cfg, lines |-> lines, ants |-> st.ants, ends |-> GoodEnds, damages |-> Plan(GoodEnds, Len(lines)), queries |-> queries,
                   bands |-> [i \in 1..Len(st.ants) |-> [j \in 1..Len(st.ants[i].freqs) |-> Band(st.ants[i].freqs[j].f)]]])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, n, lines, ants, ends, read, st, len, queries>>

Next == Start \/ Write \/ Read \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars

Kept(a) == [k |-> a.k, type |-> a.type, radome |-> a.radome, serial |-> a.serial, sv |-> a.sv, cospar |-> a.cospar, method |-> a.method, agency |-> a.agency,
            num |-> a.num, date |-> a.date, dazi |-> a.dazi, zen |-> a.zen, from |-> a.from, until |-> a.until, sinex |-> a.sinex,
            freqs |-> [i \in 1..Len(a.freqs) |-> [f |-> a.freqs[i].f, neu |-> a.freqs[i].neu, pat |-> a.freqs[i].noazi]]]
Good == SelectSeq(ants, Fine)
Prompt == Len(st.ants) >= Cardinality(Safe(GoodEnds, "cut", read))
Faithful == (len # -1 /\ read = Len(lines)) => st.ants = [i \in 1..Len(Good) |-> Kept(Good[i])]
(* whatever answers a lookup is an eccentricity of an antenna that bears the name *)
Answers == \A i \in 1..Len(queries) : queries[i].neu # <<>> =>
             \E j \in 1..Len(st.ants), k \in 1..8 : /\ Named(st.ants[j], queries[i].q) /\ k \in DOMAIN st.ants[j].freqs
                                                     /\ st.ants[j].freqs[k].neu = queries[i].neu

T1 == <<2001, 3, 4, 0, 0, 0, "0000000">>
T2 == <<2001, 12, 31, 23, 59, 59, "9999999">>
T3 == <<2002, 1, 1, 0, 0, 0, "0000000">>

(* --- exhaustive --- *)
McCfg(h) == {[clean |-> TRUE]}
McFreq(f, x) == [f |-> f, neu |-> <<x, 0 - x, 12345>>, noazi |-> <<0, x>>, azi |-> <<>>, rms |-> x > 5, bad |-> x = 7]
McAnt(k, v, fs, sx) ==
  [k |-> k, type |-> "TYP-" \o k, radome |-> IF k = "rx" THEN "NONE" ELSE "", serial |-> "", sv |-> IF k = "sv" THEN "G01" ELSE "",
   svn |-> IF k = "sv" THEN "G032" ELSE "", cospar |-> IF k = "sv" THEN "1992-079A" ELSE "", method |-> "ROBOT", agency |-> "IGS", num |-> 0,
   date |-> <<29, 3, 2029>>, dazi |-> 0, zen |-> <<0, 50, 50>>, from |-> IF v THEN T1 ELSE <<>>, until |-> IF v THEN T2 ELSE <<>>, sinex |-> sx, freqs |-> fs]
McElem(c, i, as) ==
  {[k |-> "ant", at |-> 3, a |-> McAnt(kk, v, fs, sx)] :
     kk \in {"rx", "sv"}, v \in BOOLEAN, fs \in {<<>>, <<McFreq("G01", 4 + i), McFreq("G02", 6)>>, <<McFreq("E05", 5)>>}, sx \in {"", "IGS14_2247"}} \cup {[k |-> "note"]}
McQuery(c, as) == {<<[by |-> b, id |-> IF b = "igs" THEN "TYP-rx" ELSE IF b = "sv" THEN "G01" ELSE "123", t |-> t, band |-> "L1"]>>
                   : b \in {"igs", "sv", "sn"}, t \in {T2, T3}}

(* --- simulation --- *)
SimCfg(h) == {[clean |-> Coin(h, 2, 3), y |-> RandomElement(1998..2024)]}
RVal2(h) == CASE RandomElement(1..3) = 1 -> RandomElement(-999..999)
              [] RandomElement(1..5) = 1 -> RandomElement({0, 1, -1, 99999, -99999, 100})
              [] OTHER -> RandomElement(-9999..19999)
RTm(y) == <<y, RandomElement(1..12), RandomElement(1..28), RandomElement({0, 0, 23, RandomElement(0..23)}), RandomElement({0, 59, 30}), RandomElement({0, 59, 7}),
            RandomElement({"0000000", "9999999", "5000000", "0000001", "1000000"})>>
RFreq(c, f, w, nz, na) ==
  CHOOSE z \in {[f |-> f, neu |-> n3, noazi |-> p, azi |-> az, rms |-> r, bad |-> b]
    : n3 \in {TLCEval([i \in 1..3 |-> RVal2(i)])}, p \in {TLCEval([i \in 1..nz |-> RVal2(i)])},
      az \in {TLCEval([r \in 1..na |-> TLCEval([i \in 1..nz |-> RVal2(i)])])}, r \in {Coin(1, 1, 6)}, b \in {Coin(2, 1, 40)}} : TRUE
(* distinct bands when the file is clean *)
Codes(c, k) == IF ~c.clean THEN Draw(Bands, k)
               ELSE Draw({"G01", "G02", "G05", "R01", "R02", "R03", "E01", "E05", "E07", "E08", "E06", "C01", "C02", "C05", "C06", "C07", "C08", "J06", "I09"}, k)
Mk(c, kd, ty, sn, na, nz, z0, dz, tf, v, cs) ==
   [k |-> kd, type |-> IF kd = "sv" THEN RandomElement({"BLOCK IIA", "BLOCK IIR-M", "GALILEO-2", "GLONASS-K1", "BEIDOU-3M-CAST"}) ELSE ty,
     radome |-> IF kd = "sv" THEN "" ELSE IF c.clean THEN (IF sn = "" THEN RandomElement({"NONE", ""}) ELSE "") ELSE RandomElement({"NONE", "SCIS", "LEIT"}),
     serial |-> IF kd = "sv" THEN "" ELSE sn,
     sv |-> IF kd = "sv" THEN RandomElement({"G01", "G02", "E04", "R11", "C23", "J02", "I03"}) ELSE "",
     svn |-> IF kd = "sv" THEN RandomElement({"G032", "E213", "R719", "C201"}) ELSE "",
     cospar |-> IF kd = "sv" THEN RandomElement({"1992-079A", "2016-069C", "1978-020A", "2011-064B"}) ELSE "",
     method |-> RandomElement({"ROBOT", "FIELD", "CHAMBER", "COPIED from AOAD", "CONVERTED", "", "COPIED", "CONVERTED from igs"}),
     agency |-> RandomElement({"IGG, Univ. Bonn", "Geo++ GmbH", "TUM", "", "ESA", "NGS"}), num |-> RandomElement({0, 1, 3, 12, 999, 65535}),
     date |-> IF Coin(9, 1, 2) THEN (CHOOSE z \in {<<y, RandomElement(1..12), 2000 + y>> : y \in {RandomElement(1..28)}} : TRUE)
              ELSE <<RandomElement(1..28), RandomElement(1..12), RandomElement({1996, 1999, 2000, RandomElement(2001..2029), 2029})>>,
     dazi |-> IF na = 0 THEN 0 ELSE RandomElement({50, 100, 5}), zen |-> <<z0, z0 + (nz - 1) * dz, dz>>,
     from |-> IF v = 1 THEN <<>> ELSE tf, until |-> IF v \in 1..2 THEN <<>> ELSE [tf EXCEPT ![1] = @ + RandomElement(0..2), ![4] = 23, ![5] = 59, ![6] = 59],
     sinex |-> RandomElement({"", "IGS14_2247", "IGS08"}),
     freqs |-> TLCEval([i \in 1..Len(cs) |-> RFreq(c, cs[i], i, nz, na)])]
RAnt(c, h) ==
  CHOOSE z \in {TLCEval(Mk(c, kd, ty, sn, na, nz, z0, dz, tf, v, cs))
    : kd \in {RandomElement({"rx", "sv"})}, ty \in {RandomElement({"AOAD/M_T", "TRM59800.00", "JPSLEGANT_E", "LEIAR25.R4", "ASH701945E_M"})},
      sn \in {RandomElement({"", "", "727259", "CR620012", "A-1"})}, na \in {RandomElement({0, 0, 3})}, nz \in {RandomElement({1, 2, 5, 6, 7, 15, 19})},
      z0 \in {RandomElement({0, 0, 50})}, dz \in {RandomElement({50, 10, 100})},
      tf \in {RTm(c.y)}, v \in {IF c.clean THEN RandomElement({1, 3, 3}) ELSE RandomElement(1..3)}, cs \in {Codes(c, RandomElement(0..6))}} : TRUE
SimElem(c, i, as) == {IF r = 1 THEN [k |-> "note"] ELSE [k |-> "ant", at |-> at, a |-> a]
                      : r \in {RandomElement(1..9)}, at \in {RandomElement({0, 500, RandomElement(1..25)})}, a \in {RAnt(c, i)}}
(* most lookups name an antenna of the file, at the ends of its validity *)
RAsk(c, a, h) ==
  CHOOSE z \in {[by |-> by, t |-> t, band |-> b, id |-> CASE by = "sv" -> a.sv [] by = "igs" -> a.type [] OTHER -> a.serial]
    : by \in {IF a.k = "sv" THEN "sv" ELSE IF a.serial = "" THEN "igs" ELSE RandomElement({"igs", "sn"})},
      t \in {IF Coin(1, 1, 3) /\ a.from # <<>> THEN a.from ELSE IF Coin(2, 1, 2) /\ a.until # <<>> THEN a.until ELSE RTm(c.y + RandomElement(0..2))},
      b \in {IF a.freqs # <<>> /\ Coin(3, 4, 5) THEN Band(a.freqs[RandomElement(1..Len(a.freqs))].f) ELSE RandomElement({"L1", "L2", "E1"})}} : TRUE
SimQuery(c, as) == {IF as = <<>> THEN <<[by |-> "igs", t |-> T1, band |-> "L1", id |-> "AOAD/M_T"]>>
                    ELSE TLCEval([i \in 1..8 |-> RAsk(c, as[RandomElement(1..Len(as))], i)])}
=============================================================================
