------------------------------ MODULE NavText ------------------------------
(* Navigation bodies of RINEX 2, 3 and 4.  A message is a block of lines;    *)
(* the format assigns a meaning to every 19 column cell of the block.        *)
(* cfg = [ver, minor, head]                                                   *)
(* message = [cls, sv |-> <<letter, number>>, msg, t |-> <<y,mo,d,h,mi,s,f>>, *)
(*            cells |-> texts, "" when blank]                                 *)
EXTENDS Text

(* ------------------------- what the format assigns (spare cells are "") --- *)
Clock == <<"bias", "drift", "rate">>
Kepler(a, b, c, d) == <<a, "crs", c, "m0", "cuc", "e", "cus", "sqrta", d, "cic", "omega0", "cis",
                        "i0", "crc", "omega", "omegaDot">>
LNav == Kepler("iode", "", "deltaN", "toe") \o
        <<"idot", "l2Codes", "week", "l2pDataFlag", "svAccuracy", "health", "tgd", "iodc", "t_tm", "fitInt">>
CNav(isc) == Kepler("adot", "", "deltaN0", "t_op") \o
        <<"idot", "deltaN0Dot", "uraiNed0", "uraiNed1", "uraiEd", "svHealth", "tgd", "uraiNed2",
          "iscL1Ca", "iscL2C", "iscL5I5", "iscL5Q5">> \o isc \o <<"t_tm", "wn_op">>
Glo3 == <<"satPosX", "velX", "accelX", "health", "satPosY", "velY", "accelY", "channel",
          "satPosZ", "velZ", "accelZ", "ageOp">>
Glo4 == Glo3 \o <<"status", "L1L2GrpDelay", "urai", "almanacHealth">>
Gal == Kepler("iodnav", "", "deltaN", "toe") \o
        <<"idot", "dataSrc", "week", "", "sisa", "health", "bgdE5aE1", "bgdE5bE1", "t_tm">>
Bds(v) == Kepler("aode", "", "deltaN", "toe") \o
        <<"idot", "", "week", "", "svAccuracy", "satH1">> \o
        (IF v < 4 THEN <<"tgd1b1b3", "tgd2b2b3">> ELSE <<"tgdb1b3", "tgdb2b3">>) \o <<"t_tm", "aodc">>
BCnv(rest) == Kepler("adot", "", "deltaN0", "toe") \o
        <<"idot", "deltaN0Dot", "satType", "t_op", "sisa1_oe", "sisa1_ocb", "sisa1_oc1", "sisa1_oc2">> \o rest
Sbas == <<"satPosX", "velX", "accelX", "health", "satPosY", "velY", "accelY", "accuracyCode",
          "satPosZ", "velZ", "accelZ", "iodn">>

EphNames(v, minor, sys, msg) ==
  CASE sys = "G" \/ sys = "J" -> (CASE msg = "LNAV" -> LNav [] msg = "CNAV" -> CNav(<<>>)
                                    [] msg = "CNV2" -> CNav(<<"iscL1Cd", "iscL1Cp", "", "">>))
    [] sys = "R" -> (IF v = 4 \/ (v = 3 /\ minor >= 5) THEN Glo4 ELSE Glo3)
    [] sys = "E" -> Gal
    [] sys = "C" -> (CASE msg = "CNV1" -> BCnv(<<"iscB1Cd", "", "tgdB1Cp", "tgdB2ap", "sismai", "health", "integrityB1C", "iodc",
                                                 "t_tm", "", "", "iode">>)
                       [] msg = "CNV2" -> BCnv(<<"", "iscB2ad", "tgdB1Cp", "tgdB2ap", "sismai", "health", "integrityB2aB1C", "iodc",
                                                 "t_tm", "", "", "iode">>)
                       [] msg = "CNV3" -> BCnv(<<"sismai", "health", "integrityB2b", "tgdB2bI", "t_tm">>)
                       [] OTHER -> Bds(v))
    [] sys = "S" -> Sbas

Names(cfg, cls, sys, msg) ==
  CASE cls = "EPH" -> Clock \o EphNames(cfg.ver, cfg.minor, sys, msg)
    [] cls = "STO" -> <<"system", "sbas", "utc", "t_tm", "a0", "a1", "a2">>
    [] cls = "EOP" -> <<"x0", "x1", "x2", "", "y0", "y1", "y2", "t_tm", "u0", "u1", "u2">>
    [] cls = "ION" -> (CASE sys = "E" -> <<"a0", "a1", "a2", "region">>
                         [] sys = "C" /\ msg = "CNVX" -> <<"a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "a8">>
                         [] OTHER -> <<"a0", "a1", "a2", "a3", "b0", "b1", "b2", "b3", "region">>)

Messages(sys) ==       \* which messages a constellation broadcasts (RINEX 4)
  CASE sys = "G" -> {<<"EPH", "LNAV">>, <<"EPH", "CNAV">>, <<"EPH", "CNV2">>, <<"ION", "LNAV">>, <<"ION", "CNVX">>,
                     <<"STO", "LNAV">>, <<"STO", "CNVX">>, <<"EOP", "CNVX">>}
    [] sys = "J" -> {<<"EPH", "LNAV">>, <<"EPH", "CNAV">>, <<"EPH", "CNV2">>, <<"ION", "LNAV">>, <<"ION", "CNVX">>,
                     <<"STO", "LNAV">>, <<"STO", "CNVX">>, <<"EOP", "CNVX">>}
    [] sys = "E" -> {<<"EPH", "INAV">>, <<"EPH", "FNAV">>, <<"ION", "IFNV">>, <<"STO", "IFNV">>}
    [] sys = "R" -> {<<"EPH", "FDMA">>, <<"STO", "FDMA">>}
    [] sys = "C" -> {<<"EPH", "D1">>, <<"EPH", "D2">>, <<"EPH", "CNV1">>, <<"EPH", "CNV2">>, <<"EPH", "CNV3">>,
                     <<"ION", "D1D2">>, <<"ION", "CNVX">>, <<"STO", "D1D2">>, <<"STO", "CNVX">>, <<"EOP", "CNVX">>}
    [] sys = "S" -> {<<"EPH", "SBAS">>, <<"STO", "SBAS">>}

(* ---------------------------------------------------------- the writer --- *)
I2(n) == Z(n, 2)
Cell(s) == PadL(s, 19)
Row(cells, a, b) == Cat([i \in 1..Max2(0, Min2(b, Len(cells)) - a + 1) |-> Cell(cells[a + i - 1])])
WDate(cfg, t) == IF cfg.ver < 3
  THEN Z(t[1] % 100, 2) \o Cat([i \in 1..4 |-> " " \o I(t[i + 1], 2)]) \o I(t[6], 3) \o "." \o ToString(t[7])
  ELSE Z(t[1], 4) \o Cat([i \in 1..5 |-> " " \o I2(t[i + 1])])
WFirst(cfg, m) ==
  (IF cfg.ver < 3 THEN I(m.sv[2], 2) \o " "
   ELSE IF m.cls = "EPH" THEN m.sv[1] \o I2(m.sv[2]) \o " " ELSE Sp(4)) \o
  WDate(cfg, m.t) \o
  (IF m.cls = "STO" THEN " " \o PadR(m.cells[1], 18) \o " " \o PadR(m.cells[2], 18) \o " " \o m.cells[3]
   ELSE Row(m.cells, 1, 3))
NRows(n) == (n - 3 + 3) \div 4
Finish(fin, l) == IF fin = "trim" THEN RTrim(l) ELSE IF fin = "pad" THEN PadR(l, 80) ELSE l
(* fin is how the ends of the lines are dressed: blanks trimmed, padded, left *)
WMsg(cfg, m, fin) ==
  LET body == [i \in 1..1 + NRows(Len(m.cells)) |->
                 IF i = 1 THEN WFirst(cfg, m)
                 ELSE Sp(IF cfg.ver < 3 THEN 3 ELSE 4) \o Row(m.cells, 4 * i - 4, 4 * i - 1)]
      all == IF cfg.ver < 4 THEN body
             ELSE <<"> " \o m.cls \o " " \o m.sv[1] \o I2(m.sv[2]) \o " " \o m.msg>> \o body
  IN TLCEval([i \in 1..Len(all) |-> Finish(fin, all[i])])

(* what a message holds *)
Held(cfg, m) == LET ns == Names(cfg, m.cls, m.sv[1], m.msg)
                IN [cls |-> m.cls, sv |-> m.sv, msg |-> m.msg, t |-> m.t,
                    fields |-> {<<ns[i], m.cells[i]>> : i \in {j \in 1..Len(ns) : j <= Len(m.cells) /\ ns[j] # "" /\ m.cells[j] # ""}}]

(* ---------------------------------------------------------- the reader --- *)
IsComment(l) == Len(l) > 60 /\ Trim(From(l, 61)) = "COMMENT"
IsStart(cfg, l) == IF cfg.ver = 4 THEN Cols(l, 1, 1) = ">"
                   ELSE IF cfg.ver = 3 THEN Cols(l, 1, 1) # " "
                   ELSE ~IsBlank(Cols(l, 1, 2))
RDate(cfg, l) ==
  IF cfg.ver < 3
  THEN LET yy == ToInt(Cols(l, 4, 5)) IN
       <<IF yy < 80 THEN 2000 + yy ELSE 1900 + yy, ToInt(Cols(l, 7, 8)), ToInt(Cols(l, 10, 11)),
         ToInt(Cols(l, 13, 14)), ToInt(Cols(l, 16, 17)), ToInt(Cols(l, 18, 20)), ToInt(Cols(l, 22, 22))>>
  ELSE <<ToInt(Cols(l, 5, 8)), ToInt(Cols(l, 10, 11)), ToInt(Cols(l, 13, 14)),
         ToInt(Cols(l, 16, 17)), ToInt(Cols(l, 19, 20)), ToInt(Cols(l, 22, 23)), 0>>
(* the cell of rank k of the body: row 0 holds cells 1..3 *)
CellAt(cfg, m, k) ==
  LET row == k \div 4
      off == IF cfg.ver < 3 THEN 3 ELSE 4
      a == off + 19 * (k % 4)
  IN IF m.cls = "STO" /\ k < 4
     THEN Trim(Cols(m.rows[1], 25 + 19 * (k - 1), 42 + 19 * (k - 1)))
     ELSE IF row + 1 > Len(m.rows) THEN "" ELSE Trim(Cols(m.rows[row + 1], a + 1, a + 19))
RSv(cfg, l) == IF cfg.ver < 3 THEN <<cfg.head, ToInt(Cols(l, 1, 2))>> ELSE <<Cols(l, 1, 1), ToInt(Cols(l, 2, 3))>>
Decode(cfg, m) ==
  LET ns == Names(cfg, m.cls, m.sv[1], m.msg)
  IN [cls |-> m.cls, sv |-> m.sv, msg |-> m.msg, t |-> RDate(cfg, m.rows[1]),
      fields |-> {<<ns[i], CellAt(cfg, m, i)>> : i \in {j \in 1..Len(ns) : ns[j] # "" /\ CellAt(cfg, m, j) # ""}}]

Idle == [cur |-> <<>>, out |-> <<>>]
Flush(cfg, st) == IF st.cur = <<>> \/ st.cur[1].rows = <<>> THEN st
                  ELSE [cur |-> <<>>, out |-> Append(st.out, TLCEval(Decode(cfg, st.cur[1])))]
Step(cfg, st, l) ==
  IF IsComment(l) THEN st
  ELSE IF IsStart(cfg, l)
  THEN [Flush(cfg, st) EXCEPT !.cur =
          <<IF cfg.ver = 4
            THEN [cls |-> Cols(l, 3, 5), sv |-> <<Cols(l, 7, 7), ToInt(Cols(l, 8, 9))>>, msg |-> Trim(From(l, 11)), rows |-> <<>>]
            ELSE [cls |-> "EPH", sv |-> RSv(cfg, l), msg |-> "LNAV", rows |-> <<l>>]>>]
  ELSE IF st.cur = <<>> THEN st
  ELSE [st EXCEPT !.cur[1].rows = Append(@, l)]
=============================================================================
