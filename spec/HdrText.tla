------------------------------- MODULE HdrText -------------------------------
(* Header lines of observation, meteorological and navigation files: sixty    *)
(* columns of content and a label.  An item is one field of the header with   *)
(* its value; W writes it, Step reads one line, Put says what an item adds to *)
(* the header.  The order of the items is free, except for continuation lines *)
(* and the first line.                                                        *)
EXTENDS Text

Line(c, label) == PadR(c, 60) \o label
LabelOf(l) == Trim(From(l, 61))

N2 == 9
N3 == 13
NGlo == 8
NScal == 12

None == <<>>
Empty == [ver |-> "", typ |-> "", sys |-> "", pgm |-> None, notes |-> None, mname |-> "", mnum |-> "", mtype |-> "",
          obsr |-> None, rec |-> None, ant |-> None, pos |-> None, hen |-> None, xyz |-> None, intv |-> "", clk |-> "",
          codes |-> None, scal |-> {}, glo |-> {}, leap |-> None, dcb |-> None, pcv |-> None, doi |-> "", lic |-> "", url |-> "",
          first |-> None, last |-> None, sensors |-> {}, spos |-> {}, iono |-> {}, alpha |-> None, beta |-> None]

Chunks(n, per) == IF n = 0 THEN 1 ELSE (n + per - 1) \div per
Part(l, i, per) == SubSeq(l, (i - 1) * per + 1, Min2(i * per, Len(l)))
Each(F(_), l) == Cat([i \in 1..Len(l) |-> F(l[i])])

(* ---------------------------------------------------------- the writer --- *)
WType(cfg) == CASE cfg.typ = "O" -> "OBSERVATION DATA" [] cfg.typ = "M" -> "METEOROLOGICAL DATA" [] OTHER -> "N: GNSS NAV DATA"
SysName(s) == CASE s = "G" -> "G: GPS" [] s = "R" -> "R: GLONASS" [] s = "E" -> "E: GALILEO" [] s = "C" -> "C: BDS" [] s = "J" -> "J: QZSS"
                [] s = "S" -> "S: SBAS" [] s = "I" -> "I: IRNSS" [] s = "M" -> "M: MIXED" [] OTHER -> ""
WVers(cfg) == Line(PadL(cfg.ver, 9) \o Sp(11) \o PadR(WType(cfg), 20) \o SysName(cfg.sys), "RINEX VERSION / TYPE")
A20(s) == PadR(s, 20)
F14(s) == PadL(s, 14)
Sv(x) == " " \o x[1] \o " " \o PadL(x[2], 2)
WDate(t) == Cat([i \in 1..5 |-> I(t[i], 6)]) \o PadL(t[6], 13)
W(cfg, it) ==
  CASE it.f = "pgm" -> <<Line(A20(it.v[1]) \o A20(it.v[2]) \o A20(it.v[3]), "PGM / RUN BY / DATE")>>
    [] it.f = "note" -> <<Line(it.v, "COMMENT")>>
    [] it.f = "mname" -> <<Line(it.v, "MARKER NAME")>>
    [] it.f = "mnum" -> <<Line(it.v, "MARKER NUMBER")>>
    [] it.f = "mtype" -> <<Line(it.v, "MARKER TYPE")>>
    [] it.f = "obsr" -> <<Line(A20(it.v[1]) \o it.v[2], "OBSERVER / AGENCY")>>
    [] it.f = "rec" -> <<Line(A20(it.v[1]) \o A20(it.v[2]) \o it.v[3], "REC # / TYPE / VERS")>>
    [] it.f = "ant" -> <<Line(A20(it.v[1]) \o it.v[2], "ANT # / TYPE")>>
    [] it.f = "pos" -> <<Line(Each(F14, it.v), "APPROX POSITION XYZ")>>
    [] it.f = "hen" -> <<Line(Each(F14, it.v), "ANTENNA: DELTA H/E/N")>>
    [] it.f = "xyz" -> <<Line(Each(F14, it.v), "ANTENNA: DELTA X/Y/Z")>>
    [] it.f = "intv" -> <<Line(PadL(it.v, 10), "INTERVAL")>>
    [] it.f = "clk" -> <<Line(PadL(it.v, 6), "RCV CLOCK OFFS APPL")>>
    [] it.f = "codes" /\ it.sys = "" ->
         LET C(c) == PadL(c, 6)
         IN [i \in 1..Chunks(Len(it.v), N2) |-> Line((IF i = 1 THEN I(Len(it.v), 6) ELSE Sp(6)) \o Each(C, Part(it.v, i, N2)), "# / TYPES OF OBSERV")]
    [] it.f = "codes" ->
         LET C(c) == " " \o PadR(c, 3)
         IN [i \in 1..Chunks(Len(it.v), N3) |-> Line((IF i = 1 THEN it.sys \o I(Len(it.v), 5) ELSE Sp(6)) \o Each(C, Part(it.v, i, N3)), "SYS / # / OBS TYPES")]
    [] it.f = "scal" ->
         LET C(c) == " " \o PadR(c, 3)
         IN [i \in 1..Chunks(Len(it.v), NScal) |-> Line((IF i = 1 THEN it.sys \o " " \o PadL(it.k, 4) \o I(Len(it.v), 4) ELSE Sp(10)) \o Each(C, Part(it.v, i, NScal)), "SYS / SCALE FACTOR")]
    [] it.f = "glo" -> [i \in 1..Chunks(Len(it.v), NGlo) |-> Line((IF i = 1 THEN I(Len(it.v), 3) ELSE Sp(3)) \o Each(Sv, Part(it.v, i, NGlo)), "GLONASS SLOT / FRQ #")]
    [] it.f = "leap" -> <<Line(Cat([i \in 1..Min2(4, Len(it.v)) |-> PadL(it.v[i], 6)]) \o (IF Len(it.v) > 4 THEN it.v[5] ELSE ""), "LEAP SECONDS")>>
    [] it.f = "dcb" -> <<Line(PadR(it.v[1], 2) \o PadR(it.v[2], 18) \o it.v[3], "SYS / DCBS APPLIED")>>
    [] it.f = "pcv" -> <<Line(PadR(it.v[1], 2) \o PadR(it.v[2], 18) \o it.v[3], "SYS / PCVS APPLIED")>>
    [] it.f = "doi" -> <<Line(it.v, "DOI")>>
    [] it.f = "lic" -> <<Line(it.v, "LICENSE OF USE")>>
    [] it.f = "url" -> <<Line(it.v, "STATION INFORMATION")>>
    [] it.f = "first" -> <<Line(WDate(it.v) \o Sp(5) \o it.v[7], "TIME OF FIRST OBS")>>
    [] it.f = "last" -> <<Line(WDate(it.v) \o Sp(5) \o it.v[7], "TIME OF LAST OBS")>>
    [] it.f = "mod" -> <<Line(A20(it.v[2]) \o A20(it.v[3]) \o Sp(6) \o PadL(it.v[4], 7) \o Sp(4) \o it.v[1], "SENSOR MOD/TYPE/ACC")>>
    [] it.f = "spos" -> <<Line(Each(F14, Tail(it.v)) \o " " \o it.v[1], "SENSOR POS XYZ/H")>>
    [] it.f = "iono" -> <<Line(PadR(it.v[1], 5) \o Cat([i \in 1..Len(it.v) - 1 |-> PadL(it.v[i + 1], 12)]), "IONOSPHERIC CORR")>>
    [] it.f = "alpha" -> <<Line(Sp(2) \o Cat([i \in 1..4 |-> PadL(it.v[i], 12)]), "ION ALPHA")>>
    [] it.f = "beta" -> <<Line(Sp(2) \o Cat([i \in 1..4 |-> PadL(it.v[i], 12)]), "ION BETA")>>
    [] OTHER -> <<it.v>>

(* ------------------------------------------- what an item adds, no text --- *)
Put(hd, it) ==
  CASE it.f \in {"pgm", "mname", "mnum", "mtype", "obsr", "rec", "ant", "pos", "hen", "xyz", "intv", "clk", "leap", "doi", "lic", "url",
                 "first", "last", "alpha", "beta"} -> [hd EXCEPT ![it.f] = it.v]
    [] it.f = "note" -> [hd EXCEPT !.notes = Append(@, Trim(it.v))]
    [] it.f = "codes" -> [hd EXCEPT !.codes = Append(@, [sys |-> it.sys, n |-> Len(it.v), l |-> it.v])]
    [] it.f = "scal" -> [hd EXCEPT !.scal = @ \cup {<<it.sys, it.v[i], it.k>> : i \in 1..Len(it.v)}]
    [] it.f = "glo" -> [hd EXCEPT !.glo = @ \cup {it.v[i] : i \in 1..Len(it.v)}]
    [] it.f \in {"dcb", "pcv"} -> [hd EXCEPT ![it.f] = Append(@, it.v)]
    [] it.f = "mod" -> [hd EXCEPT !.sensors = @ \cup {it.v}]
    [] it.f \in {"spos", "iono"} -> [hd EXCEPT ![it.f] = @ \cup {it.v}]
    [] OTHER -> hd

(* ---------------------------------------------------------- the reader --- *)
(* words of w columns separated by one column (the separator comes first) *)
Words(l, a, w, n) == SelectSeq([i \in 1..n |-> Trim(Cols(l, a + (w + 1) * (i - 1) + 1, a + (w + 1) * (i - 1) + w))], LAMBDA s : s # "")
C2(l, a) == Trim(Cols(l, a, a + 1))
Floats(l, a, w, n) == [i \in 1..n |-> Trim(Cols(l, a + w * (i - 1), a + w * i - 1))]
RDate(l) == [i \in 1..7 |-> IF i = 7 THEN Trim(Cols(l, 49, 51)) ELSE IF i = 6 THEN Trim(Cols(l, 31, 43)) ELSE IF IsInt(Cols(l, 6 * i - 5, 6 * i)) THEN ToInt(Cols(l, 6 * i - 5, 6 * i)) ELSE -1]
Dense(s) == SelectSeq(s, LAMBDA x : x # "")

Fresh == [hd |-> Empty, n |-> 0, ctx |-> None, err |-> "", end |-> FALSE]
Fail(st, w) == [st EXCEPT !.err = w]
Set(st, f, v) == IF st.hd[f] # Empty[f] THEN Fail(st, f \o " twice") ELSE [st EXCEPT !.hd = [@ EXCEPT ![f] = v], !.ctx = None]
Step(st, l) ==
  LET b == LabelOf(l)
      c == PadR(SubSeq(l, 1, Min2(60, Len(l))), 60)
  IN
  IF st.err # "" THEN st
  ELSE IF st.end THEN Fail(st, "after the end")
  ELSE IF b = "" THEN Fail(st, "no label")
  ELSE IF st.n = 0 THEN
    IF b # "RINEX VERSION / TYPE" THEN Fail(st, "first line")
    ELSE [st EXCEPT !.n = 1, !.hd = [@ EXCEPT !.ver = Trim(Cols(c, 1, 9)), !.typ = Cols(c, 21, 21), !.sys = Trim(Cols(c, 41, 41))]]
  ELSE
  CASE b = "COMMENT" -> [st EXCEPT !.hd.notes = Append(@, Trim(c))]
    [] b = "PGM / RUN BY / DATE" -> Set(st, "pgm", Floats(c, 1, 20, 3))
    [] b = "MARKER NAME" -> Set(st, "mname", Trim(c))
    [] b = "MARKER NUMBER" -> Set(st, "mnum", Trim(Cols(c, 1, 20)))
    [] b = "MARKER TYPE" -> Set(st, "mtype", Trim(Cols(c, 1, 20)))
    [] b = "OBSERVER / AGENCY" -> Set(st, "obsr", <<Trim(Cols(c, 1, 20)), Trim(Cols(c, 21, 60))>>)
    [] b = "REC # / TYPE / VERS" -> Set(st, "rec", Floats(c, 1, 20, 3))
    [] b = "ANT # / TYPE" -> Set(st, "ant", Floats(c, 1, 20, 2))
    [] b = "APPROX POSITION XYZ" -> Set(st, "pos", Floats(c, 1, 14, 3))
    [] b = "ANTENNA: DELTA H/E/N" -> Set(st, "hen", Floats(c, 1, 14, 3))
    [] b = "ANTENNA: DELTA X/Y/Z" -> Set(st, "xyz", Floats(c, 1, 14, 3))
    [] b = "INTERVAL" -> Set(st, "intv", Trim(Cols(c, 1, 10)))
    [] b = "RCV CLOCK OFFS APPL" -> Set(st, "clk", Trim(Cols(c, 1, 6)))
    [] b = "# / TYPES OF OBSERV" ->
         IF ~IsBlank(Cols(c, 1, 6))
         THEN IF IsInt(Cols(c, 1, 6)) THEN [Set(st, "codes", <<[sys |-> "", n |-> ToInt(Cols(c, 1, 6)), l |-> Dense([i \in 1..N2 |-> C2(c, 5 + 6 * i)])]>>) EXCEPT !.ctx = <<"codes">>]
              ELSE Fail(st, "count")
         ELSE IF st.ctx # <<"codes">> THEN Fail(st, "continuation")
         ELSE [st EXCEPT !.hd.codes = TLCEval(<<[@[1] EXCEPT !.l = @ \o Dense([i \in 1..N2 |-> C2(c, 5 + 6 * i)])]>>)]
    [] b = "SYS / # / OBS TYPES" ->
         IF Cols(c, 1, 1) # " "
         THEN IF IsInt(Cols(c, 2, 6)) THEN [st EXCEPT !.hd.codes = TLCEval(Append(@, [sys |-> Cols(c, 1, 1), n |-> ToInt(Cols(c, 2, 6)), l |-> Words(c, 7, 3, N3)])), !.ctx = <<"codes">>]
              ELSE Fail(st, "count")
         ELSE IF st.ctx # <<"codes">> \/ ~IsBlank(Cols(c, 1, 6)) THEN Fail(st, "continuation")
         ELSE [st EXCEPT !.hd.codes = TLCEval([@ EXCEPT ![Len(@)].l = @ \o Words(c, 7, 3, N3)])]
    [] b = "SYS / SCALE FACTOR" ->
         LET k == IF Cols(c, 1, 1) # " " THEN <<"scal", Cols(c, 1, 1), Trim(Cols(c, 3, 6))>> ELSE st.ctx
         IN IF Len(k) # 3 THEN Fail(st, "continuation")
            ELSE [st EXCEPT !.ctx = k, !.hd.scal = TLCEval(@ \cup LET w == Words(c, 11, 3, NScal) IN {<<k[2], w[i], k[3]>> : i \in 1..Len(w)})]
    [] b = "GLONASS SLOT / FRQ #" ->
         IF IsBlank(Cols(c, 1, 3)) /\ st.ctx # <<"glo">> THEN Fail(st, "continuation")
         ELSE [st EXCEPT !.ctx = <<"glo">>,
                !.hd.glo = TLCEval(@ \cup {<<Cols(c, 7 * i - 2, 7 * i), Trim(Cols(c, 7 * i + 2, 7 * i + 3))>> : i \in {j \in 1..NGlo : ~IsBlank(Cols(c, 7 * j - 2, 7 * j + 3))}})]
    [] b = "LEAP SECONDS" ->
         LET v == Floats(c, 1, 6, 4) s == Trim(Cols(c, 25, 27))
         IN Set(st, "leap", IF s # "" THEN Append(v, s) ELSE IF v[2] = "" THEN <<v[1]>> ELSE v)
    [] b = "SYS / DCBS APPLIED" -> [st EXCEPT !.ctx = None, !.hd.dcb = Append(@, <<Cols(c, 1, 1), Trim(Cols(c, 3, 20)), Trim(Cols(c, 21, 60))>>)]
    [] b = "SYS / PCVS APPLIED" -> [st EXCEPT !.ctx = None, !.hd.pcv = Append(@, <<Cols(c, 1, 1), Trim(Cols(c, 3, 20)), Trim(Cols(c, 21, 60))>>)]
    [] b = "DOI" -> Set(st, "doi", Trim(c))
    [] b = "LICENSE OF USE" -> Set(st, "lic", Trim(c))
    [] b = "STATION INFORMATION" -> Set(st, "url", Trim(c))
    [] b = "TIME OF FIRST OBS" -> Set(st, "first", RDate(c))
    [] b = "TIME OF LAST OBS" -> Set(st, "last", RDate(c))
    [] b = "SENSOR MOD/TYPE/ACC" -> [st EXCEPT !.hd.sensors = @ \cup {<<Trim(Cols(c, 58, 59)), Trim(Cols(c, 1, 20)), Trim(Cols(c, 21, 40)), Trim(Cols(c, 47, 53))>>}]
    [] b = "SENSOR POS XYZ/H" -> [st EXCEPT !.hd.spos = @ \cup {<<Trim(Cols(c, 58, 59))>> \o Floats(c, 1, 14, 4)}]
    [] b = "IONOSPHERIC CORR" -> [st EXCEPT !.hd.iono = @ \cup {<<Trim(Cols(c, 1, 4))>> \o Dense(Floats(c, 6, 12, 4))}]
    [] b = "ION ALPHA" -> Set(st, "alpha", Floats(c, 3, 12, 4))
    [] b = "ION BETA" -> Set(st, "beta", Floats(c, 3, 12, 4))
    [] b = "END OF HEADER" -> [st EXCEPT !.end = TRUE]
    [] OTHER -> [st EXCEPT !.ctx = None]

(* declared counts are the actual ones *)
Counted(hd) == \A i \in 1..Len(hd.codes) : hd.codes[i].n = Len(hd.codes[i].l)
=============================================================================
