------------------------------ MODULE HdrText2 ------------------------------
(* H02: header lines of ionosphere maps, clock files and antenna files.       *)
(* Content, then a label: sixty columns of content, sixty five in clock files *)
(* of revision 3.04 and later.  W2 writes an item, Step2 reads one line,      *)
(* Put2 says what an item adds to the header.                                 *)
EXTENDS HdrText

Wide(cfg) == cfg.typ = "C" /\ cfg.ver = "3.04"
Lab(cfg, c, label) == PadR(c, IF Wide(cfg) THEN 65 ELSE 60) \o label

Empty2 == [ver |-> "", typ |-> "", sys |-> "", pgm |-> None, notes |-> None, intv |-> "", leap |-> "",
           dsc |-> None, first |-> None, last |-> None, maps |-> "", mapf |-> "", elev |-> "", obsu |-> "", nsta |-> "", nsat |-> "",
           rad |-> "", dim |-> "", hgt |-> None, lat |-> None, lon |-> None, exp |-> "",
           tsid |-> "", types |-> None, sname |-> None, sref |-> "", ac |-> None, wclk |-> None, dcb |-> None, pcv |-> None, pcvt |-> None]

(* ---------------------------------------------------------- the writer --- *)
WVers2(cfg) ==
  CASE cfg.typ = "I" -> Line(PadL(cfg.ver, 8) \o Sp(12) \o PadR(cfg.long, 20) \o cfg.sys, "IONEX VERSION / TYPE")
    [] cfg.typ = "A" -> Line(PadL(cfg.ver, 8) \o Sp(12) \o cfg.sys, "ANTEX VERSION / SYST")
    [] Wide(cfg) -> Lab(cfg, PadR(cfg.ver, 21) \o PadR(cfg.long, 21) \o cfg.sys, "RINEX VERSION / TYPE")
    [] OTHER -> Line(PadL(cfg.ver, 9) \o Sp(11) \o PadR(cfg.long, 20) \o cfg.sys, "RINEX VERSION / TYPE")
Six(v) == Cat([i \in 1..Len(v) |-> I(v[i], 6)])
F61(v) == Sp(2) \o Cat([i \in 1..3 |-> PadL(v[i], 6)])
WClk(cfg, c) == IF Wide(cfg) THEN PadR(c[1], 10) \o PadR(c[2], 10) \o Sp(25) \o PadL(c[3], 19)
                ELSE PadR(c[1], 5) \o PadR(c[2], 35) \o PadL(c[3], 19)
W2(cfg, it) ==
  CASE it.f = "pgm" -> LET P(s) == PadR(s, IF Wide(cfg) THEN 21 ELSE 20) IN <<Lab(cfg, P(it.v[1]) \o P(it.v[2]) \o it.v[3], "PGM / RUN BY / DATE")>>
    [] it.f = "note" -> <<Lab(cfg, it.v, "COMMENT")>>
    [] it.f = "dsc" -> [i \in 1..Len(it.v) |-> Line(it.v[i], "DESCRIPTION")]
    [] it.f = "first" -> <<Line(Six(it.v), "EPOCH OF FIRST MAP")>>
    [] it.f = "last" -> <<Line(Six(it.v), "EPOCH OF LAST MAP")>>
    [] it.f = "intv" -> <<Line(PadL(it.v, 6), "INTERVAL")>>
    [] it.f = "maps" -> <<Line(PadL(it.v, 6), "# OF MAPS IN FILE")>>
    [] it.f = "mapf" -> <<Line("  " \o it.v, "MAPPING FUNCTION")>>
    [] it.f = "elev" -> <<Line(PadL(it.v, 8), "ELEVATION CUTOFF")>>
    [] it.f = "obsu" -> <<Line(it.v, "OBSERVABLES USED")>>
    [] it.f = "nsta" -> <<Line(PadL(it.v, 6), "# OF STATIONS")>>
    [] it.f = "nsat" -> <<Line(PadL(it.v, 6), "# OF SATELLITES")>>
    [] it.f = "rad" -> <<Line(PadL(it.v, 8), "BASE RADIUS")>>
    [] it.f = "dim" -> <<Line(PadL(it.v, 6), "MAP DIMENSION")>>
    [] it.f = "hgt" -> <<Line(F61(it.v), "HGT1 / HGT2 / DHGT")>>
    [] it.f = "lat" -> <<Line(F61(it.v), "LAT1 / LAT2 / DLAT")>>
    [] it.f = "lon" -> <<Line(F61(it.v), "LON1 / LON2 / DLON")>>
    [] it.f = "exp" -> <<Line(PadL(it.v, 6), "EXPONENT")>>
    [] it.f = "leap" -> <<Lab(cfg, PadL(it.v, 6), "LEAP SECONDS")>>
    [] it.f = "tsid" -> <<Lab(cfg, "   " \o it.v, "TIME SYSTEM ID")>>
    [] it.f = "types" -> <<Lab(cfg, I(Len(it.v), 6) \o Cat([i \in 1..Len(it.v) |-> PadL(it.v[i], 6)]), "# / TYPES OF DATA")>>
    [] it.f = "sname" -> <<Lab(cfg, (IF Wide(cfg) /\ Len(it.v[1]) > 4 THEN PadR(it.v[1], 10) ELSE PadR(it.v[1], 5)) \o it.v[2], "STATION NAME / NUM")>>
    [] it.f = "sref" -> <<Lab(cfg, it.v, "STATION CLK REF")>>
    [] it.f = "ac" -> <<Lab(cfg, PadR(it.v[1], 5) \o it.v[2], "ANALYSIS CENTER")>>
    [] it.f = "wclk" -> <<Lab(cfg, I(Len(it.v), 6) \o it.k, "# OF CLK REF")>>
                        \o [i \in 1..Len(it.v) |-> Lab(cfg, WClk(cfg, it.v[i]), "ANALYSIS CLK REF")]
    [] it.f \in {"dcb", "pcv"} -> <<Lab(cfg, PadR(it.v[1], 2) \o PadR(it.v[2], 18) \o it.v[3], IF it.f = "dcb" THEN "SYS / DCBS APPLIED" ELSE "SYS / PCVS APPLIED")>>
    [] it.f = "pcvt" -> <<Line(PadR(it.v[1], 20) \o PadR(it.v[2], 20) \o it.v[3], "PCV TYPE / REFANT")>>
    [] OTHER -> [i \in 1..Len(it.v) |-> Lab(cfg, it.v[i][1], it.v[i][2])]     \* unrelated lines

Put2(hd, it) ==
  CASE it.f = "note" -> [hd EXCEPT !.notes = Append(@, Trim(it.v))]
    [] it.f = "other" -> hd
    [] it.f \in {"dcb", "pcv"} -> [hd EXCEPT ![it.f] = Append(@, it.v)]
    [] it.f = "wclk" -> [hd EXCEPT !.wclk = @ \o it.v]
    [] OTHER -> [hd EXCEPT ![it.f] = it.v]

(* ---------------------------------------------------------- the reader --- *)
Fresh2 == [hd |-> Empty2, n |-> 0, w |-> 60, err |-> "", end |-> FALSE]
Set2(st, f, v) == IF st.hd[f] # Empty2[f] THEN Fail(st, f \o " twice") ELSE [st EXCEPT !.hd = [@ EXCEPT ![f] = v]]
Txt(c, a, b) == Trim(Cols(c, a, b))
SixInts(c) == [i \in 1..6 |-> IF IsInt(Cols(c, 6 * i - 5, 6 * i)) THEN ToInt(Cols(c, 6 * i - 5, 6 * i)) ELSE -1]
Three(c) == [i \in 1..3 |-> Txt(c, 6 * i - 3, 6 * i + 2)]
First2(st, l) ==
  CASE Trim(From(l, 61)) = "IONEX VERSION / TYPE" -> [st EXCEPT !.n = 1, !.hd.ver = Txt(l, 1, 8), !.hd.typ = Cols(l, 21, 21), !.hd.sys = Txt(l, 41, 60)]
    [] Trim(From(l, 61)) = "ANTEX VERSION / SYST" -> [st EXCEPT !.n = 1, !.hd.ver = Txt(l, 1, 8), !.hd.typ = "A", !.hd.sys = Txt(l, 21, 21)]
    [] Trim(From(l, 61)) = "RINEX VERSION / TYPE" /\ Cols(l, 60, 61) = " R" ->
         [st EXCEPT !.n = 1, !.hd.ver = Txt(l, 1, 9), !.hd.typ = Cols(l, 21, 21), !.hd.sys = Txt(l, 41, 41)]
    [] Trim(From(l, 66)) = "RINEX VERSION / TYPE" -> [st EXCEPT !.n = 1, !.w = 65, !.hd.ver = Txt(l, 1, 4), !.hd.typ = Cols(l, 22, 22), !.hd.sys = Txt(l, 43, 43)]
    [] OTHER -> Fail(st, "first line")
Step2(st, l) ==
  LET b == Trim(From(l, st.w + 1))
      c == PadR(SubSeq(l, 1, Min2(st.w, Len(l))), st.w)
      g == IF st.w = 65 THEN 1 ELSE 0           \* blank between fields of the wide layout
      typ == st.hd.typ
  IN
  IF st.err # "" THEN st
  ELSE IF st.end THEN Fail(st, "after the end")
  ELSE IF st.n = 0 THEN First2(st, l)
  ELSE IF b = "" THEN Fail(st, "no label")
  ELSE
  CASE b = "COMMENT" -> [st EXCEPT !.hd.notes = Append(@, Trim(c))]
    [] b = "PGM / RUN BY / DATE" -> Set2(st, "pgm", <<Txt(c, 1, 20), Txt(c, 21 + g, 40 + g), Txt(c, 41 + 2 * g, st.w)>>)
    [] b = "DESCRIPTION" -> [st EXCEPT !.hd.dsc = Append(@, Trim(c))]
    [] b = "EPOCH OF FIRST MAP" -> Set2(st, "first", SixInts(c))
    [] b = "EPOCH OF LAST MAP" -> Set2(st, "last", SixInts(c))
    [] b = "INTERVAL" -> Set2(st, "intv", Txt(c, 1, 6))
    [] b = "# OF MAPS IN FILE" -> Set2(st, "maps", Txt(c, 1, 6))
    [] b = "MAPPING FUNCTION" -> Set2(st, "mapf", Txt(c, 3, 6))
    [] b = "ELEVATION CUTOFF" -> Set2(st, "elev", Txt(c, 1, 8))
    [] b = "OBSERVABLES USED" -> Set2(st, "obsu", Trim(c))
    [] b = "# OF STATIONS" -> Set2(st, "nsta", Txt(c, 1, 6))
    [] b = "# OF SATELLITES" -> Set2(st, "nsat", Txt(c, 1, 6))
    [] b = "BASE RADIUS" -> Set2(st, "rad", Txt(c, 1, 8))
    [] b = "MAP DIMENSION" -> Set2(st, "dim", Txt(c, 1, 6))
    [] b = "HGT1 / HGT2 / DHGT" -> Set2(st, "hgt", Three(c))
    [] b = "LAT1 / LAT2 / DLAT" -> Set2(st, "lat", Three(c))
    [] b = "LON1 / LON2 / DLON" -> Set2(st, "lon", Three(c))
    [] b = "EXPONENT" -> Set2(st, "exp", Txt(c, 1, 6))
    [] b = "LEAP SECONDS" -> Set2(st, "leap", Txt(c, 1, 6))
    [] b = "TIME SYSTEM ID" -> Set2(st, "tsid", Txt(c, 4, 6))
    [] b = "# / TYPES OF DATA" -> Set2(st, "types", [i \in 1..(IF IsInt(Cols(c, 1, 6)) THEN ToInt(Cols(c, 1, 6)) ELSE 0) |-> Txt(c, 6 * i + 5, 6 * i + 6)])
    [] b = "STATION NAME / NUM" -> IF st.w = 65 /\ Cols(c, 5, 5) # " " THEN Set2(st, "sname", <<Txt(c, 1, 9), Txt(c, 11, 20)>>)
                                   ELSE Set2(st, "sname", <<Txt(c, 1, 4), Txt(c, 6, 25)>>)
    [] b = "STATION CLK REF" -> Set2(st, "sref", Trim(c))
    [] b = "ANALYSIS CENTER" -> Set2(st, "ac", <<Txt(c, 1, 3), Txt(c, 6, 60)>>)
    [] b = "ANALYSIS CLK REF" -> [st EXCEPT !.hd.wclk = Append(@, IF st.w = 65 THEN <<Txt(c, 1, 9), Txt(c, 11, 20), Txt(c, 46, 64)>> ELSE <<Txt(c, 1, 4), Txt(c, 6, 25), Txt(c, 41, 59)>>)]
    [] b = "SYS / DCBS APPLIED" -> [st EXCEPT !.hd.dcb = Append(@, <<Cols(c, 1, 1), Txt(c, 3, 20), Txt(c, 21, 60)>>)]
    [] b = "SYS / PCVS APPLIED" -> [st EXCEPT !.hd.pcv = Append(@, <<Cols(c, 1, 1), Txt(c, 3, 20), Txt(c, 21, 60)>>)]
    [] b = "PCV TYPE / REFANT" -> Set2(st, "pcvt", <<Cols(c, 1, 1), Txt(c, 21, 40), Txt(c, 41, 60)>>)
    [] b = "END OF HEADER" -> [st EXCEPT !.end = TRUE]
    [] OTHER -> st
=============================================================================
