------------------------------- MODULE DorText -------------------------------
(* DORIS files: the fields of the header that name the satellite, what is     *)
(* observed, how it is scaled and the ground stations; then epochs, each with *)
(* its flag, the clock of the satellite and, per station, the measurements    *)
(* with their two flags, five a line.                                         *)
(* cfg = [name, obs, scale, offset, stations, first]                          *)
(* station = [key, label, site, domes, gen, kf]                               *)
(* epoch = [y, mo, d, h, mi, s, ns, flag, clk, ext, seen];                    *)
(* seen = sequence of [key, vals], vals = sequence of [v, m1, m2]             *)
EXTENDS Text

PerLine == 5
L60(s, label) == PadR(s, 60) \o label

(* ---------------------------------------------------------- the writer --- *)
WStation(s) == PadR("D" \o Z(s.key, 2) \o "  " \o PadR(s.label, 4) \o " " \o PadR(s.site, 29) \o " " \o s.domes
                    \o I(s.gen, 3) \o " " \o I(s.kf, 3), 60)
WScale(sc) == "D " \o I(sc.factor, 4) \o "  " \o I(Len(sc.codes), 2) \o Cat([i \in 1..Len(sc.codes) |-> " " \o PadL(sc.codes[i], 3)])
WFirst(t) == "  " \o ToString(t.y) \o Cat([i \in 1..4 |-> "    " \o Z(<<t.mo, t.d, t.h, t.mi>>[i], 2)]) \o "   " \o Z(t.s, 2) \o "."
             \o Z(t.ns \div 100, 7) \o "     DOR"
WHead(cfg) ==
  <<L60(PadL("3.00", 9) \o Sp(11) \o PadR("O", 20) \o "D", "RINEX VERSION / TYPE"),
    L60(PadR("Expert", 20) \o PadR("CNES", 20) \o "20180614 090016 UTC", "PGM / RUN BY / DATE "),
    L60(cfg.name, "SATELLITE NAME"),
    L60("2010-013A", "COSPAR NUMBER"),
    L60("D  " \o I(Len(cfg.obs), 3) \o Cat([i \in 1..Len(cfg.obs) |-> " " \o PadL(cfg.obs[i], 3)]), "SYS / # / OBS TYPES"),
    L60(WFirst(cfg.first), "TIME OF FIRST OBS")>>
  \o [i \in 1..Len(cfg.scale) |-> L60(WScale(cfg.scale[i]), "SYS / SCALE FACTOR")]
  \o <<L60("D" \o PadL(cfg.offset, 16), "L2 / L1 DATE OFFSET"),
       L60(I(Len(cfg.stations), 6), "# OF STATIONS")>>
  \o [i \in 1..Len(cfg.stations) |-> L60(WStation(cfg.stations[i]), "STATION REFERENCE")]
  \o <<L60(I(1, 6), "# TIME REF STATIONS"),
       L60("D" \o Z(cfg.stations[1].key, 2) \o "           1.581          13.840", "TIME REF STATION"),
       L60("", "END OF HEADER")>>

WTime(e) == "> " \o ToString(e.y) \o Cat([i \in 1..4 |-> " " \o Z(<<e.mo, e.d, e.h, e.mi>>[i], 2)]) \o " " \o I(e.s, 2) \o "." \o Z(e.ns, 9)
WEpochLine(e) == WTime(e) \o I(e.flag, 3) \o I(Len(e.seen), 3) \o Sp(6) \o PadL(e.clk, 13) \o " " \o e.ext
Cell(x) == IF x.v = "" THEN Sp(16) ELSE PadL(x.v, 14) \o PadR(x.m1, 1) \o PadR(x.m2, 1)
NLines(n) == (n + PerLine - 1) \div PerLine
WSeen(s) == [i \in 1..NLines(Len(s.vals)) |->
               (IF i = 1 THEN "D" \o Z(s.key, 2) ELSE Sp(3))
               \o Cat([j \in 1..Min2(PerLine, Len(s.vals) - PerLine * (i - 1)) |-> Cell(s.vals[PerLine * (i - 1) + j])])]
WEpoch(e) == TLCEval(<<WEpochLine(e)>> \o FlatSeq([i \in 1..Len(e.seen) |-> [k \in 1..Len(WSeen(e.seen[i])) |-> RTrim(WSeen(e.seen[i])[k])]]))

(* ---------------------------------------------------------- the reader --- *)
RCells(l, n) == [i \in 1..n |-> LET a == 4 + 16 * (i - 1) v == Trim(Cols(l, a, a + 13))
                                IN [v |-> v, m1 |-> IF v = "" THEN "" ELSE Trim(Cols(l, a + 14, a + 14)),
                                             m2 |-> IF v = "" THEN "" ELSE Trim(Cols(l, a + 15, a + 15))]]
REpoch(l) == [y |-> ToInt(Cols(l, 3, 6)), mo |-> ToInt(Cols(l, 8, 9)), d |-> ToInt(Cols(l, 11, 12)), h |-> ToInt(Cols(l, 14, 15)),
              mi |-> ToInt(Cols(l, 17, 18)), s |-> ToInt(Cols(l, 20, 21)), ns |-> ToInt(Cols(l, 23, 31)), flag |-> ToInt(Cols(l, 32, 34)),
              clk |-> Trim(Cols(l, 44, 56)), ext |-> Trim(Cols(l, 57, 58)), seen |-> <<>>]
Count(l) == ToInt(Cols(l, 35, 37))

IsComment(l) == Len(l) > 60 /\ Trim(From(l, 61)) = "COMMENT"
Idle == [mode |-> "idle", cur |-> <<>>, left |-> 0, out |-> <<>>, err |-> ""]
Full(cfg, st) == st.cur.seen = <<>> \/ Len(Last(st.cur.seen).vals) = Len(cfg.obs)
Settle(cfg, st) == IF st.left = 0 /\ Full(cfg, st) THEN [st EXCEPT !.mode = "idle", !.out = Append(@, st.cur), !.cur = <<>>] ELSE st
More(cfg, st, l) == RCells(l, Min2(PerLine, Len(cfg.obs) - Len(Last(st.cur.seen).vals)))
Step(cfg, st, l) ==
  IF IsComment(l) \/ st.mode = "lost" THEN st
  ELSE IF st.mode = "idle"
  THEN IF Char(l, 1) # ">" THEN [st EXCEPT !.mode = "lost", !.err = "epoch"]
       ELSE Settle(cfg, [st EXCEPT !.mode = "row", !.cur = REpoch(l), !.left = Count(l)])
  ELSE IF Full(cfg, st)
  THEN IF Char(l, 1) # "D" THEN [st EXCEPT !.mode = "lost", !.err = "station"]
       ELSE Settle(cfg, [st EXCEPT !.left = @ - 1, !.cur.seen = TLCEval(Append(@,
              [key |-> ToInt(Cols(l, 2, 3)), vals |-> RCells(l, Min2(PerLine, Len(cfg.obs)))]))])
  ELSE IF ~IsBlank(Cols(l, 1, 3)) THEN [st EXCEPT !.mode = "lost", !.err = "continuation"]
  ELSE Settle(cfg, [st EXCEPT !.cur.seen[Len(st.cur.seen)].vals = TLCEval(@ \o More(cfg, st, l))])

(* the stations as the header lines give them, and how their frequencies shift: *)
(* S1 = 543 F0 (3/4 + 87 k / (5 2^26)), U2 = 107 F0 (3/4 + 87 k / (5 2^26)), F0 = 5 MHz; *)
(* what is emitted is what multiplies F0 / (5 2^26)                              *)
RStation(l) == [key |-> ToInt(Cols(l, 2, 3)), label |-> Trim(Cols(l, 6, 9)), site |-> Trim(Cols(l, 11, 39)), domes |-> Cols(l, 41, 49),
                gen |-> ToInt(Cols(l, 50, 52)), kf |-> LET f == Trim(Cols(l, 53, 56)) IN IF Char(f, 1) = "-" THEN 0 - ToInt(From(f, 2)) ELSE ToInt(f)]
Shift(s) == <<543 * 87 * s.kf, 107 * 87 * s.kf>>
=============================================================================
