------------------------------- MODULE AtxText -------------------------------
(* ANTEX bodies.  An antenna block describes one antenna, then one frequency  *)
(* block after another; a frequency block holds the eccentricities and the    *)
(* phase pattern, first independent of the azimuth, then maybe per azimuth.   *)
(* RMS blocks repeat that shape and describe nothing but accuracies.          *)
(* ant = [k ("rx"/"sv"), type, radome, serial, sv, svn, cospar, method,       *)
(*   agency, num, date <<d, m, y>>, dazi, zen <<a, b, d>>, from, until,       *)
(*   sinex, freqs]; a missing time is <<>>                                    *)
(* freq = [f, neu <<n, e, u>>, noazi, azi, rms, bad] in hundredths            *)
EXTENDS Text

Months == <<"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC">>

(* ---------------------------------------------------------- the writer --- *)
Abs(n) == IF n < 0 THEN -n ELSE n
F1(n, w) == PadL((IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 10) \o "." \o ToString(Abs(n) % 10), w)
F2(n, w) == PadL((IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 100) \o "." \o Z(Abs(n) % 100, 2), w)
Lab(s, l) == PadR(s, 60) \o PadR(l, 20)
WTime(t, l) == IF t = <<>> THEN <<>>
               ELSE <<Lab(I(t[1], 6) \o I(t[2], 6) \o I(t[3], 6) \o I(t[4], 6) \o I(t[5], 6)
                          \o PadL(ToString(t[6]) \o "." \o t[7], 13), l)>>
WPat(vs) == Cat([i \in 1..Len(vs) |-> F2(vs[i], 8)])
WNeu(f) == <<Lab((IF f.bad THEN PadL("******", 10) ELSE F2(f.neu[1], 10)) \o F2(f.neu[2], 10) \o F2(f.neu[3], 10), "NORTH / EAST / UP")>>
WRows(f, dazi) == <<"   NOAZI" \o WPat(f.noazi)>> \o [i \in 1..Len(f.azi) |-> F1((i - 1) * dazi, 8) \o WPat(f.azi[i])]
WFreq(f, dazi) ==
  LET id == Sp(3) \o f.f IN
  <<Lab(id, "START OF FREQUENCY")>> \o WNeu(f) \o WRows(f, dazi) \o <<Lab(id, "END OF FREQUENCY")>>
  \o (IF f.rms THEN <<Lab(id, "START OF FREQ RMS"), Lab(F2(17, 10) \o F2(23, 10) \o F2(31, 10), "NORTH / EAST / UP")>>
                    \o <<"   NOAZI" \o WPat([i \in 1..Len(f.noazi) |-> 7])>> \o <<Lab(id, "END OF FREQ RMS")>>
      ELSE <<>>)
WAnt(a) ==
  <<Lab("", "START OF ANTENNA"),
    Lab(PadR(PadR(a.type, 16) \o a.radome, 20) \o PadR(IF a.k = "sv" THEN a.sv ELSE a.serial, 20) \o PadR(a.svn, 10) \o PadR(a.cospar, 10), "TYPE / SERIAL NO"),
    Lab(PadR(a.method, 20) \o PadR(a.agency, 20) \o I(a.num, 6) \o Sp(4) \o Z(a.date[1], 2) \o "-" \o Months[a.date[2]] \o "-" \o Z(a.date[3] % 100, 2),
        "METH / BY / # / DATE"),
    Lab(Sp(2) \o F1(a.dazi, 6), "DAZI"),
    Lab(Sp(2) \o F1(a.zen[1], 6) \o F1(a.zen[2], 6) \o F1(a.zen[3], 6), "ZEN1 / ZEN2 / DZEN"),
    Lab(I(Len(a.freqs), 6), "# OF FREQUENCIES")>>
  \o WTime(a.from, "VALID FROM") \o WTime(a.until, "VALID UNTIL")
  \o (IF a.sinex = "" THEN <<>> ELSE <<Lab(a.sinex, "SINEX CODE")>>)
  \o FlatSeq([i \in 1..Len(a.freqs) |-> WFreq(a.freqs[i], a.dazi)])
  \o <<Lab("", "END OF ANTENNA")>>

(* ---------------------------------------------------------- the reader --- *)
SVal(s) == LET t == Trim(s) IN IF SubSeq(t, 1, 1) = "-" THEN -ToInt(From(t, 2)) ELSE ToInt(t)
Fix(s) == SVal(RemoveDot(Trim(s)))
Label(l) == Trim(Cols(l, 61, 80))
MonthNo(s) == CHOOSE i \in 1..12 : Months[i] = s
Year2(y) == IF y >= 80 THEN 1900 + y ELSE 2000 + y
RTime(l) == [i \in 1..5 |-> ToInt(Cols(l, 6 * i - 5, 6 * i))]
            \o <<ToInt(Cols(l, 31, 35)), Cols(l, 37, 43)>>
RECURSIVE Vals(_)
Vals(s) == IF IsBlank(s) THEN <<>> ELSE <<Fix(Cols(s, 1, 8))>> \o Vals(From(s, 9))

(* [k, type, serial, svn...] : the antenna as kept, freqs = sequence of [f, neu, pat] *)
NewAnt == [k |-> "rx", type |-> "", radome |-> "", serial |-> "", sv |-> "", cospar |-> "", method |-> "", agency |-> "", num |-> 0, date |-> <<0, 0, 0>>,
           dazi |-> 0, zen |-> <<0, 0, 0>>, from |-> <<>>, until |-> <<>>, sinex |-> "", freqs |-> <<>>]
NewFreq == [f |-> "", neu |-> <<0, 0, 0>>, pat |-> <<>>]
Idle == [a |-> NewAnt, f |-> NewFreq, in |-> "", bad |-> FALSE, ants |-> <<>>]
Number(s) == LET t == Trim(s) IN \A i \in 1..Len(t) : SubSeq(t, i, i) \in Digits \cup {"-", "."}
Step(st, l) ==
  LET lb == Label(l) IN
  IF lb = "COMMENT" THEN st
  ELSE IF lb = "START OF ANTENNA" THEN [Idle EXCEPT !.ants = st.ants]
  ELSE IF lb = "END OF ANTENNA" THEN [st EXCEPT !.ants = IF st.bad THEN @ ELSE Append(@, st.a)]
  ELSE IF lb = "TYPE / SERIAL NO"
  THEN LET isv == ~IsBlank(Cols(l, 41, 60)) IN
       [st EXCEPT !.a.k = IF isv THEN "sv" ELSE "rx", !.a.type = Trim(Cols(l, 1, 16)),
                  !.a.radome = Trim(Cols(l, 17, 20)), !.a.serial = IF isv THEN "" ELSE Trim(Cols(l, 21, 40)), !.a.sv = IF isv THEN Trim(Cols(l, 21, 40)) ELSE "",
                  !.a.cospar = Trim(Cols(l, 51, 60))]
  ELSE IF lb = "METH / BY / # / DATE"
  THEN [st EXCEPT !.a.method = Trim(Cols(l, 1, 20)), !.a.agency = Trim(Cols(l, 21, 40)), !.a.num = ToInt(Cols(l, 41, 46)),
                  !.a.date = <<ToInt(Cols(l, 51, 52)), MonthNo(Cols(l, 54, 56)), Year2(ToInt(Cols(l, 58, 59)))>>]
  ELSE IF lb = "DAZI" THEN [st EXCEPT !.a.dazi = Fix(Cols(l, 3, 8))]
  ELSE IF lb = "ZEN1 / ZEN2 / DZEN" THEN [st EXCEPT !.a.zen = <<Fix(Cols(l, 3, 8)), Fix(Cols(l, 9, 14)), Fix(Cols(l, 15, 20))>>]
  ELSE IF lb = "VALID FROM" THEN [st EXCEPT !.a.from = RTime(l)]
  ELSE IF lb = "VALID UNTIL" THEN [st EXCEPT !.a.until = RTime(l)]
  ELSE IF lb = "SINEX CODE" THEN [st EXCEPT !.a.sinex = Trim(Cols(l, 1, 10))]
  ELSE IF lb = "START OF FREQUENCY" THEN [st EXCEPT !.in = "f", !.f = [NewFreq EXCEPT !.f = Cols(l, 4, 6)]]
  ELSE IF lb = "START OF FREQ RMS" THEN [st EXCEPT !.in = "rms"]
  ELSE IF lb = "END OF FREQ RMS" THEN [st EXCEPT !.in = ""]
  ELSE IF lb = "END OF FREQUENCY" THEN [st EXCEPT !.in = "", !.a.freqs = Append(@, st.f)]
  ELSE IF st.in = "f" /\ lb = "NORTH / EAST / UP"
  THEN IF ~Number(Cols(l, 1, 10)) THEN [st EXCEPT !.bad = TRUE]
       ELSE [st EXCEPT !.f.neu = <<Fix(Cols(l, 1, 10)), Fix(Cols(l, 11, 20)), Fix(Cols(l, 21, 30))>>]
  ELSE IF st.in = "f" /\ Cols(l, 4, 8) = "NOAZI" THEN [st EXCEPT !.f.pat = TLCEval(Vals(From(l, 9)))]
  ELSE st

(* --------------------------------------------------------------- lookup --- *)
(* the band a frequency code stands for *)
BandTab == <<
  <<"G01", "L1">>, <<"G02", "L2">>, <<"G05", "L5">>, <<"R01", "G1(None)">>, <<"R02", "G2(None)">>, <<"R03", "G3">>,
  <<"E01", "E1">>, <<"E05", "E5a">>, <<"E07", "E5b">>, <<"E08", "E5">>, <<"E06", "E6">>,
  <<"C01", "B1C">>, <<"C02", "B1I">>, <<"C05", "B2A">>, <<"C06", "B3">>, <<"C07", "B2B">>, <<"C08", "B2">>,
  <<"J01", "L1">>, <<"J02", "L2">>, <<"J05", "L5">>, <<"J06", "L6">>, <<"S01", "L1">>, <<"S05", "L5">>,
  <<"I05", "L5">>, <<"I09", "S">> >>
Band(f) ==
  LET i == CHOOSE i \in 1..Len(BandTab) : BandTab[i][1] = f IN BandTab[i][2]
Bands == {BandTab[i][1] : i \in 1..Len(BandTab)}

(* times compare field by field; the fraction has seven digits *)
RECURSIVE Leq(_, _)
Leq(a, b) == IF Len(a) = 1 THEN ToInt(a[1]) <= ToInt(b[1])
             ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Leq(Tail(a), Tail(b)))
Valid(a, t) == (a.from = <<>> \/ Leq(a.from, t)) /\ (a.until = <<>> \/ Leq(t, a.until))
Named(a, q) == IF q.by = "sv" THEN a.k = "sv" /\ a.sv = q.id
               ELSE a.k = "rx" /\ (IF q.by = "igs" THEN a.type = q.id ELSE a.serial # "" /\ a.serial = q.id)
FreqsAt(a, band) == {i \in 1..Len(a.freqs) : Band(a.freqs[i].f) = band}
Answer(ants, q) ==
  LET hits == {i \in 1..Len(ants) : Named(ants[i], q) /\ Valid(ants[i], q.t) /\ FreqsAt(ants[i], q.band) # {}}
  IN IF hits = {} THEN <<>> ELSE LET a == ants[SetMin(hits)] IN a.freqs[SetMax(FreqsAt(a, q.band))].neu
ValidAt(ants, t) == Cardinality({i \in 1..Len(ants) : Valid(ants[i], t)})
=============================================================================
