------------------------------- MODULE RnxHdr -------------------------------
(* H01: a writer puts down the fields of a header one line at a time, in any  *)
(* order, with comments and unrelated lines in between; a reader follows.     *)
EXTENDS HdrText

CONSTANTS SomeCfg(_), SomeItems(_), SomeNote(_), SomeUnrelated(_), MaxNotes

VARIABLES cfg, todo, queue, want, st, lines, notes, phase
vars == <<cfg, todo, queue, want, st, lines, notes, phase>>

Init == /\ cfg = <<>> /\ todo = <<>> /\ queue = <<>> /\ want = Empty /\ st = Fresh /\ lines = <<>> /\ notes = 0 /\ phase = "start"

Out(l) == /\ lines' = Append(lines, l)
          /\ st' = TLCEval(Step(st, l))

Start == /\ phase = "start"
         /\ \E c \in SomeCfg(0) : \E is \in SomeItems(c) :
              /\ cfg' = c /\ todo' = is
              /\ want' = [want EXCEPT !.ver = c.ver, !.typ = c.typ, !.sys = c.sys]
              /\ Out(WVers(c))
         /\ phase' = "body" /\ UNCHANGED <<queue, notes>>
Begin == /\ phase = "body" /\ queue = <<>> /\ todo # <<>>
         /\ LET ls == TLCEval(W(cfg, Head(todo)))
            IN /\ Out(ls[1]) /\ queue' = Tail(ls)
         /\ want' = TLCEval(Put(want, Head(todo)))
         /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, notes, phase>>
Continue == /\ phase = "body" /\ queue # <<>>
            /\ Out(Head(queue)) /\ queue' = Tail(queue)
            /\ UNCHANGED <<cfg, todo, want, notes, phase>>
Note == /\ phase = "body" /\ notes < MaxNotes
        /\ \E s \in SomeNote(notes) :
             /\ Out(W(cfg, [f |-> "note", v |-> s])[1])
             /\ want' = Put(want, [f |-> "note", v |-> s])
        /\ notes' = notes + 1 /\ UNCHANGED <<cfg, todo, queue, phase>>
Unrelated == /\ phase = "body" /\ queue = <<>> /\ notes < MaxNotes
             /\ \E l \in SomeUnrelated(notes) : Out(l)
             /\ notes' = notes + 1 /\ UNCHANGED <<cfg, todo, queue, want, phase>>
Finish == /\ phase = "body" /\ queue = <<>> /\ todo = <<>>
          /\ Out(Line("", "END OF HEADER"))
          /\ phase' = "end" /\ UNCHANGED <<cfg, todo, queue, want, notes>>
Report == /\ phase = "end"
          /\ Emit([cfg |-> cfg, lines |-> lines, want |-> want])
          /\ phase' = "done" /\ UNCHANGED <<cfg, todo, queue, want, st, lines, notes>>

Next == Start \/ Begin \/ Continue \/ Note \/ Unrelated \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

Readable == st.err = ""
Faithful == phase \in {"end", "done"} => st.end /\ st.hd = want /\ Counted(st.hd)
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 80
(* what has been read so far never depends on lines yet to come: fields only get defined *)
Grows == [][\A f \in DOMAIN st.hd : st.hd[f] # Empty[f] => st'.hd[f] # Empty[f]]_vars

(* --- exhaustive: every order of the fields that share a destination, every wrapping size --- *)
McCfg(h) == {[typ |-> "O", ver |-> "3.05", sys |-> "M"], [typ |-> "O", ver |-> "2.11", sys |-> "G"],
             [typ |-> "M", ver |-> "3.00", sys |-> ""], [typ |-> "N", ver |-> "3.04", sys |-> "M"], [typ |-> "N", ver |-> "3.04", sys |-> "E"], [typ |-> "N", ver |-> "2.11", sys |-> "M"]}
Code3(i) == <<"C1C", "L1C", "D1C", "S1C", "C2W", "L2W", "D2W", "S2W", "C2L", "L2L", "D2L", "S2L", "C5Q", "L5Q", "D5Q", "S5Q", "C1W", "L1W", "S1W", "C1L",
               "L1L", "D1L", "S1L", "C1X", "L1X", "D1X", "S1X", "C2X", "L2X", "D2X", "S2X", "C5X", "L5X", "D5X", "S5X", "C5I", "L5I", "D5I", "S5I", "X1", "I2">>[i]
Code2(i) == <<"C1", "L1", "D1", "S1", "P1", "C2", "L2", "D2", "S2", "P2", "C5", "L5", "D5", "S5", "C6", "L6", "D6", "S6", "C7", "L7", "D7", "S7", "C8", "L8", "D8", "S8", "P5", "P8">>[i]
MetCode(i) == <<"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI">>[i]
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
It(f, v) == [f |-> f, v |-> v]
Codes(s, n) == [f |-> "codes", sys |-> s, v |-> [i \in 1..n |-> Code3(i)]]
Slots(n) == [i \in 1..n |-> <<"R" \o Z(i, 2), ToString((i % 14) - 7)>>]
Marker == {It("mname", "A MARKER WITH A NAME LONGER THAN TWENTY COLUMNS"), It("mnum", "10118M101"), It("mtype", "WATER_CRAFT")}
Ant == {It("ant", <<"SN 0001", "LEIAR25.R4      LEIT">>), It("hen", <<"0.0880", "-0.0010", "12345678.1234">>), It("xyz", <<"1.0000", "-2.0000", "3.0000">>)}
First == It("first", <<2021, 3, 7, 0, 0, "0.0000000", "GPS">>)
McItems(c) ==
  CASE c.typ = "O" /\ c.sys = "M" -> {is \o IF \E i \in 1..Len(is) : is[i].f = "first" THEN <<>> ELSE <<First>> : is \in
         Perms(Marker \cup {It("rec", <<"1", "R", "4.51">>)}) \cup Perms(Ant \cup {It("pos", <<"4696989.6540", "-723994.1980", "4239678.3140">>)})
         \cup {<<Codes("G", a), Codes("R", b)>> : a \in {1, 12, 13, 14, 26, 27, 39}, b \in {1, 13, 40}}
         \cup {<<Codes("G", 14), [f |-> "scal", sys |-> "G", k |-> k, v |-> [i \in 1..n |-> Code3(i)]], [f |-> "scal", sys |-> "R", k |-> "10", v |-> <<"C1C">>]>>
                 : k \in {"1", "1000"}, n \in {1, 12, 13}}
         \cup {<<It("glo", Slots(n)), It("intv", "30.000"), Codes("R", 2)>> : n \in {1, 3, 7, 8, 9, 16, 17, 24}}
         \cup Perms({First, It("last", <<2021, 3, 7, 23, 59, "59.9990000", "GPS">>), Codes("E", 2)})
         \cup {<<It("leap", l)>> : l \in {<<"18">>, <<"18", "18", "1929", "7">>, <<"18", "18", "2185", "7", "GPS">>, <<"4", "4", "829", "7", "BDS">>, <<"5", "15", "18", "1">>}}}
    [] c.typ = "O" -> {<<First, [f |-> "codes", sys |-> "", v |-> [i \in 1..n |-> Code2(i)]]>> : n \in 1..28}
    [] c.typ = "M" -> {<<[f |-> "codes", sys |-> "", v |-> [i \in 1..n |-> MetCode(i)]]>> : n \in 1..10}
         \cup {is \o <<[f |-> "codes", sys |-> "", v |-> <<"PR", "TD">>]>> : is \in Perms({It("mod", <<"PR", "PAROSCIENTIFIC", "740-16B", "0.2">>), It("mod", <<"TD", "HMP", "", "100.5">>), It("spos", <<"PR", "1.0000", "2.0000", "3.0000", "93.0000">>)})}
    [] c.ver = "3.04" -> Perms({It("iono", <<"GPSA", ".1118D-07", ".2235D-07", "-.4172D-06", ".6557D-06">>), It("iono", <<"GPSB", ".1372D+06", ".1638D+06", "-.2097D+06", ".3146D+06">>),
                            It("iono", <<"GAL", "41.2500", "0.1211", "0.0115">>), It("iono", <<"BDSA", ".1118E-07", ".2235E-07", "-.4172E-06", ".6557E-06">>)})
    [] OTHER -> Perms({It("alpha", <<"0.1118D-07", "0.2235D-07", "-0.4172D-06", "0.6557D-06">>), It("beta", <<"0.1372D+06", "0.1638D+06", "-0.2097D+06", "0.3146D+06">>), It("leap", <<"18">>)})
McNote(n) == {"a comment about the MARKER NAME"}
McUnrelated(n) == {Line(PadL("9", 6), "# OF SATELLITES")}

(* --- simulation: any fields, any values, any order --- *)
Word(h) == CHOOSE z \in {Cat(TLCEval([i \in 1..n |-> RandomElement({"A", "b", "C", "x9", "-", "/", ".", "_", "0", "#", "Z", " q", ": w"})])) : n \in {RandomElement(1..8)}} : TRUE
Text(h, w) == CHOOSE z \in {IF Len(t) > w THEN Trim(SubSeq(t, 1, w)) ELSE t : t \in {Trim(Cat(TLCEval([i \in 1..n |-> Word(i) \o RandomElement({"", " ", "  "})])))
                              : n \in {RandomElement({1, 1, 2, 3, 12})}}} : TRUE
Coord(h, top) == CHOOSE z \in {(IF neg THEN "-" ELSE "") \o ToString(u) \o "." \o Z(f, 4) : neg \in {Coin(h, 1, 3)}, f \in {RandomElement(1..9999)},
                      u \in {RandomElement({RandomElement(0..9), RandomElement(0..9999), RandomElement(1..100) * top})}} : TRUE
Coords(n, top) == TLCEval([i \in 1..n |-> Coord(i, top)])
D12(h) == CHOOSE z \in {sg \o "." \o Z(RandomElement(1000..9999), 4) \o e \o RandomElement({"-07", "-08", "+05", "+06", "-06", "+00"})
                        : sg \in {RandomElement({"", "-", "0"})}, e \in {RandomElement({"D", "E"})}} : TRUE
Ds(n) == TLCEval([i \in 1..n |-> D12(i)])
RDt(ts) == <<RandomElement(1980..2079), RandomElement(1..12), RandomElement(1..28), RandomElement(0..23), RandomElement(0..59),
             ToString(RandomElement(0..59)) \o "." \o Z(RandomElement({0, 0, 1, 9999999, RandomElement(0..999999) * 10}), 7), ts>>
SubCodes(h, F(_), n, k) == CHOOSE z \in {TLCEval([i \in 1..Len(s) |-> F(s[i])]) : s \in {Draw(1..n, k)}} : TRUE
Fields(c) ==
  {"pgm", "mname", "mnum", "mtype", "obsr", "rec", "ant", "pos", "hen", "xyz", "intv", "leap", "doi", "lic", "url"}
  \cup (IF c.typ = "O" THEN {"clk", "glo", "last", "dcb", "pcv"} \cup (IF c.ver # "2.11" THEN {"scal"} ELSE {}) ELSE {})
  \cup (IF c.typ = "M" THEN {"mod1", "mod2", "spos1", "spos2"} ELSE {})
  \cup (IF c.typ = "N" THEN (IF c.ver = "2.11" THEN {"alpha", "beta"} ELSE {"gpsa", "gpsb", "gal", "qzsa", "bdsb", "bdsa"}) ELSE {})
DefaultTs(s) == CASE s = "R" -> "GLO" [] s = "E" -> "GAL" [] s = "C" -> "BDT" [] s = "J" -> "QZS" [] OTHER -> "GPS"
RVal(c, f) ==
  CASE f = "pgm" -> <<Text(1, 20), Text(2, 20), RandomElement({"20210307 000000 UTC", "07-MAR-21 10:00", "20200101 235959 LCL"})>>
    [] f = "mname" -> Text(1, 60)
    [] f = "mnum" -> Z(RandomElement(1..99999), 5) \o RandomElement({"M", "M", "S"}) \o Z(RandomElement(1..999), 3)
    [] f = "mtype" -> RandomElement({"GEODETIC", "NON_GEODETIC", "NON_PHYSICAL", "SPACEBORNE", "AIRBORNE", "WATER_CRAFT", "GROUND_CRAFT", "FIXED_BUOY",
                                     "FLOATING_BUOY", "FLOATING_ICE", "GLACIER", "BALLISTIC", "ANIMAL", "HUMAN"})
    [] f = "obsr" -> CHOOSE z \in {CASE k = 1 -> <<"", Text(2, 40)>> [] k = 2 -> <<Text(1, 20), "">>
                                      [] OTHER -> <<Text(1, 20), Text(2, 40)>> : k \in {RandomElement(1..4)}} : TRUE
    [] f = "rec" -> <<Text(1, 20), Text(2, 20), Text(3, 20)>>
    [] f = "ant" -> <<Text(1, 20), Text(2, 20)>>
    [] f = "pos" -> Coords(3, 65432)
    [] f = "hen" -> Coords(3, 1)
    [] f = "xyz" -> Coords(3, 1)
    [] f = "intv" -> ToString(RandomElement({1, 15, 30, 86400, RandomElement(1..3600)})) \o "." \o RandomElement({"000", "500", "125"})
    [] f = "clk" -> RandomElement({"0", "1"})
    [] f = "leap" -> CHOOSE z \in {CASE r = 1 -> <<ToString(a)>>
                                     [] r = 2 -> <<ToString(a), ToString(RandomElement(0..99)), ToString(RandomElement(0..99999)), ToString(RandomElement(1..7))>>
                                     [] OTHER -> <<ToString(a), ToString(RandomElement(0..99)), ToString(RandomElement(0..9999)), ToString(RandomElement(1..7)), RandomElement({"GPS", "BDS"})>>
                         : r \in {RandomElement(1..3)}, a \in {RandomElement(0..99)}} : TRUE
    [] f = "glo" -> CHOOSE z \in {TLCEval([i \in 1..Len(s) |-> <<"R" \o Z(s[i], 2), ToString(RandomElement(0..13) - 7)>>]) : s \in {Draw(1..24, RandomElement(1..24))}} : TRUE
    [] f \in {"dcb", "pcv"} -> <<RandomElement({"G", "R", "E", "C", "J"}), Text(1, 17), "https://" \o Text(2, 32)>>
    [] f \in {"doi", "lic", "url"} -> "https://" \o Text(2, 52)
    [] f \in {"first", "last"} -> RDt(IF c.sys = "M" THEN RandomElement({"GPS", "GLO", "GAL", "BDT", "QZS", "IRN"}) ELSE RandomElement({"", "GPS", DefaultTs(c.sys), DefaultTs(c.sys)}))
    [] f = "mod1" -> <<"PR", Text(1, 20), Text(2, 20), RandomElement({"0.1", "0.2", "10.5", "100.0"})>>
    [] f = "mod2" -> <<"HR", Text(1, 20), Text(2, 20), RandomElement({"5.0", ""})>>
    [] f = "spos1" -> <<"PR">> \o Coords(4, 65432)
    [] f = "spos2" -> <<"HR">> \o Coords(4, 1)
    [] f = "gpsa" -> <<"GPSA">> \o Ds(4)
    [] f = "gpsb" -> <<"GPSB">> \o Ds(4)
    [] f = "qzsa" -> <<"QZSA">> \o Ds(4)
    [] f = "bdsa" -> <<"BDSA">> \o Ds(4)
    [] f = "bdsb" -> <<"BDSB">> \o Ds(4)
    [] f = "gal" -> <<"GAL">> \o Ds(3)
    [] f \in {"alpha", "beta"} -> Ds(4)
    [] OTHER -> 0
Tag(f) == CASE f \in {"mod1", "mod2"} -> "mod" [] f \in {"spos1", "spos2"} -> "spos"
            [] f \in {"gpsa", "gpsb", "gal", "qzsa", "bdsa", "bdsb"} -> "iono" [] OTHER -> f
RItem(c, f) ==
  IF f = "scal" THEN [f |-> "scal", sys |-> RandomElement({"G", "E"}), k |-> RandomElement({"1", "10", "100", "1000"}), v |-> SubCodes(c, Code3, 40, RandomElement({1, 3, 11, 12, 13, 24, 25}))]
  ELSE CHOOSE z \in {[f |-> Tag(f), v |-> v] : v \in {RVal(c, f)}} : TRUE
RCodes(c) ==
  CASE c.typ = "M" -> <<[f |-> "codes", sys |-> "", v |-> SubCodes(c, MetCode, 10, RandomElement(1..10))]>>
    [] c.typ = "O" /\ c.ver = "2.11" -> <<[f |-> "codes", sys |-> "", v |-> SubCodes(c, Code2, 28, RandomElement({1, 5, 8, 9, 10, 17, 18, 19, 27, 28}))]>>
    [] c.typ = "O" -> CHOOSE z \in {TLCEval([i \in 1..Len(ss) |-> [f |-> "codes", sys |-> ss[i], v |-> SubCodes(i, Code3, 41, RandomElement({1, 4, 12, 13, 14, 25, 26, 27, 39, 40}))]])
                             : ss \in {IF c.sys # "M" THEN <<c.sys>> ELSE Draw({"G", "R", "E", "C", "J", "S", "I"}, RandomElement(1..7))}} : TRUE
    [] OTHER -> <<>>
Shuffle(s) == CHOOSE z \in {[i \in 1..Len(s) |-> s[p[i]]] : p \in {Draw(1..Len(s), Len(s))}} : TRUE
SimCfg(h) == {IF t = "O" THEN IF v2 THEN [typ |-> "O", ver |-> "2.11", sys |-> RandomElement({"G", "R", "E", "S", "M"})]
                                 ELSE [typ |-> "O", ver |-> RandomElement({"3.02", "3.05", "4.00"}), sys |-> RandomElement({"G", "R", "E", "C", "J", "S", "M", "M", "M"})]
              ELSE IF t = "M" THEN [typ |-> "M", ver |-> RandomElement({"2.11", "3.02", "4.00"}), sys |-> ""]
              ELSE [typ |-> "N", ver |-> IF v2 THEN "2.11" ELSE "3.04", sys |-> IF v2 THEN "M" ELSE RandomElement({"G", "R", "E", "C", "J", "S", "M"})]
              : t \in {RandomElement({"O", "O", "O", "O", "M", "N"})}, v2 \in {Coin(h, 1, 3)}}
SimItems(c) == {Shuffle(TLCEval([i \in 1..Len(fs) |-> RItem(c, fs[i])]) \o cs) : fs \in {Draw(Fields(c), RandomElement(2..18)) \o IF c.typ = "O" THEN <<"first">> ELSE <<>>}, cs \in {RCodes(c)}}
SimNote(n) == {RandomElement({"", "END OF HEADER", "# / TYPES OF OBSERV", "RINEX VERSION / TYPE", "  3.04           OBSERVATION DATA    M", Text(n, 60), Text(n, 60)})}
SimUnrelated(n) == {RandomElement({Line(PadL("9", 6), "# OF SATELLITES"), Line("   G01" \o PadL("120", 6), "PRN / # OF OBS"), Line("DBHZ", "SIGNAL STRENGTH UNIT"),
                                   Line("     1     1", "WAVELENGTH FACT L1/2"), Line("G L1C  0.00000", "SYS / PHASE SHIFT"), Line(" C1C    0.000", "GLONASS COD/PHS/BIS"),
                                   Line(PadL("3", 9), "MERGED FILE"), Line(Sp(14) \o "1.0", "ANTENNA: ZERODIR XYZ")})}
=============================================================================
