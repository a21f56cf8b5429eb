------------------------------ MODULE FileName ------------------------------
(* Standard file names.  A data set is saved under a name; the name is read   *)
(* into production attributes; names are produced from data and attributes;  *)
(* the file is renamed and read again.                                        *)
(*   short: SSSSDDD0.YYT      IONEX: AAAR DDD0.YYI                            *)
(*   long:  SSSSbbCCC_S_YYYYDDDHHMM_PPU[_FFU]_TT.EXT                          *)
EXTENDS Text

CONSTANTS SomeWorld(_), SomeGiven(_, _), SomeCustom(_), MaxRounds

VARIABLES phase, w, given, prod, custom, outs, hist
vars == <<phase, w, given, prod, custom, outs, hist>>

\* --- attributes ------------------------------------------------------------
Sources == {"R", "S", "U"}
Ppus == {"15M", "01H", "01D", "01Y", "00U"}
NoAttr == [name |-> "", y |-> 0, doy |-> 0, region |-> "", det |-> <<>>]

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpC(c) == IF \E i \in 1..26 : SubSeq(Lower, i, i) = c
          THEN LET i == CHOOSE i \in 1..26 : SubSeq(Lower, i, i) = c IN SubSeq(Upper, i, i) ELSE c
RECURSIVE Up(_)
Up(s) == IF s = "" THEN s ELSE UpC(SubSeq(s, 1, 1)) \o Up(SubSeq(s, 2, Len(s)))
LoC(c) == IF \E i \in 1..26 : SubSeq(Upper, i, i) = c
          THEN LET i == CHOOSE i \in 1..26 : SubSeq(Upper, i, i) = c IN SubSeq(Lower, i, i) ELSE c
RECURSIVE Lo(_)
Lo(s) == IF s = "" THEN s ELSE LoC(SubSeq(s, 1, 1)) \o Lo(SubSeq(s, 2, Len(s)))
Prefix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)

\* --- periods ---------------------------------------------------------------
(* a sampling period is [s |-> seconds] or, below one second, [hz |-> rate]  *)
Minute == 60
Hour == 3600
Day == 86400
Code(p) == IF p.hz > 0 THEN (IF p.hz < 100 THEN Z(p.hz, 2) \o "Z" ELSE Z(p.hz \div 100, 2) \o "C")
           ELSE IF p.s % Day = 0 /\ p.s \div Day < 100 THEN Z(p.s \div Day, 2) \o "D"
           ELSE IF p.s % Hour = 0 /\ p.s \div Hour < 100 THEN Z(p.s \div Hour, 2) \o "H"
           ELSE IF p.s % Minute = 0 /\ p.s \div Minute < 100 THEN Z(p.s \div Minute, 2) \o "M"
           ELSE Z(p.s, 2) \o "S"
IsCode(s) == /\ SubSeq(s, 1, 1) \in Digits /\ SubSeq(s, 2, 2) \in Digits
             /\ SubSeq(s, 3, 3) \in {"S", "M", "H", "D", "Z", "C"}
(* how long the file lasts, as a file period *)
Span(d) == IF d.n < 2 \/ d.p.hz > 0 THEN 0 ELSE (d.n - 1) * d.p.s
PpuOf(s) == IF s >= 31557600 THEN "01Y"
            ELSE IF s > Hour /\ s <= Day THEN "01D"
            ELSE IF s > 900 /\ s <= Hour THEN "01H"
            ELSE IF s > 300 /\ s <= 900 THEN "15M" ELSE "00U"

\* --- writing a name --------------------------------------------------------
Short(name, ddd, yy, t) == Up(Prefix(name, 4)) \o ddd \o "0." \o yy \o t
Ionex(name, r, ddd, yy) == Up(Prefix(name, 3)) \o r \o ddd \o "0." \o yy \o "I"
Long(name, b, c, s, y, ddd, hh, mm, ppu, ffu, t, ext) ==
  Up(Prefix(name, 4)) \o Z(b % 100, 2) \o c \o "_" \o s \o "_" \o y \o ddd \o hh \o mm \o "_" \o ppu
    \o (IF ffu = "" THEN "" ELSE "_" \o ffu) \o "_" \o t \o "." \o ext

\* --- reading a name --------------------------------------------------------
AllDigits(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits
RECURSIVE Dot(_, _)
Dot(s, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = "." THEN i ELSE Dot(s, i + 1)
Century(yy) == IF yy < 80 THEN 2000 + yy ELSE 1900 + yy
IsShort(s) == /\ Dot(s, 1) = 9 /\ Len(s) >= 12 /\ (Len(s) > 12 => SubSeq(s, 13, 13) = ".")
              /\ AllDigits(SubSeq(s, 5, 7)) /\ AllDigits(SubSeq(s, 10, 11))
IsLong(s) == /\ Dot(s, 1) \in {31, 35} /\ Len(s) >= Dot(s, 1) + 3
             /\ AllDigits(SubSeq(s, 5, 6)) /\ AllDigits(SubSeq(s, 13, 23))
             /\ Dot(s, 1) = 35 => IsCode(SubSeq(s, 29, 31))
ReadShort(s) ==
  LET ion == SubSeq(s, 12, 12) = "I"
  IN [name |-> SubSeq(s, 1, IF ion THEN 3 ELSE 4), y |-> Century(ToInt(SubSeq(s, 10, 11))), doy |-> ToInt(SubSeq(s, 5, 7)),
      region |-> IF ion THEN SubSeq(s, 4, 4) ELSE "", det |-> <<>>]
ReadLong(s) ==
  [name |-> SubSeq(s, 1, 4), y |-> ToInt(SubSeq(s, 13, 16)), doy |-> ToInt(SubSeq(s, 17, 19)), region |-> "",
   det |-> <<[batch |-> ToInt(SubSeq(s, 5, 6)), country |-> SubSeq(s, 7, 9),
              src |-> IF SubSeq(s, 11, 11) \in Sources THEN SubSeq(s, 11, 11) ELSE "U",
              hh |-> ToInt(SubSeq(s, 20, 21)), mm |-> ToInt(SubSeq(s, 22, 23)),
              ppu |-> IF SubSeq(s, 25, 27) \in Ppus THEN SubSeq(s, 25, 27) ELSE "00U",
              ffu |-> IF Dot(s, 1) = 35 THEN SubSeq(s, 29, 31) ELSE ""]>>]
Standard(s) == IsShort(s) \/ IsLong(s)
ReadName(s) == LET u == Up(s) IN IF IsShort(u) THEN ReadShort(u) ELSE IF IsLong(u) THEN ReadLong(u) ELSE NoAttr

\* --- a data set and the names it is entitled to ------------------------------
(* kind, system letter, first epoch, number of epochs, period, whether the    *)
(* header names a receiver, marker and agency                                 *)
Data(k, sys, t, n, p, rcvr, mk, ag) ==
  [kind |-> k, sys |-> sys, t |-> t, n |-> n, p |-> p, rcvr |-> rcvr, marker |-> mk, agency |-> ag]
Letter(d) == CASE d.kind = "OBS" -> "O" [] d.kind = "CRX" -> "D" [] d.kind = "MET" -> "M" [] d.kind = "ION" -> "I"
               [] d.kind = "NAV" -> (CASE d.sys = "R" -> "G" [] d.sys = "E" -> "L" [] d.sys = "M" -> "P" [] d.sys = "S" -> "H" [] OTHER -> "N")
Type(d) == CASE d.kind \in {"OBS", "CRX"} -> d.sys \o "O" [] d.kind = "MET" -> "MM" [] OTHER -> d.sys \o "N"
Ext(d) == IF d.kind = "CRX" THEN "crx" ELSE "rnx"
Rate(d) == IF d.n < 2 THEN "" ELSE Code(d.p)

(* the name of d: attributes a given explicitly, or those its name had        *)
DDD(d, a, cust) == Z(IF cust THEN a.doy ELSE d.t.doy, 3)
YY(d, a, cust) == Z((IF cust THEN a.y ELSE d.t.y) % 100, 2)
Src(d, a) == IF a.det # <<>> /\ a.det[1].src # "U" THEN a.det[1].src ELSE IF d.rcvr THEN "R" ELSE "U"
Ffu(d, a) == IF d.kind = "NAV" THEN ""
             ELSE IF Rate(d) # "" THEN Rate(d)
             ELSE IF a.det # <<>> /\ a.det[1].ffu # "" THEN a.det[1].ffu ELSE "XXX"
HH(d, a, cust) == IF ~cust THEN Z(d.t.hh, 2) ELSE IF a.det # <<>> THEN Z(a.det[1].hh, 2) ELSE "HH"
MM(d, a, cust) == IF ~cust THEN Z(d.t.mm, 2) ELSE IF a.det # <<>> THEN Z(a.det[1].mm, 2) ELSE "MM"
Produce(d, a, cust, short) ==
  IF d.kind = "ION" THEN Ionex(a.name, IF a.region = "" THEN "G" ELSE a.region, DDD(d, a, cust), YY(d, a, cust))
  ELSE IF short THEN Short(a.name, DDD(d, a, cust), YY(d, a, cust), Letter(d))
  ELSE Long(a.name, IF a.det = <<>> THEN 0 ELSE a.det[1].batch, IF a.det = <<>> THEN "CCC" ELSE a.det[1].country, Src(d, a),
            ToString(IF cust THEN a.y ELSE d.t.y), DDD(d, a, cust), HH(d, a, cust), MM(d, a, cust),
            IF a.det = <<>> THEN "00U" ELSE a.det[1].ppu, Ffu(d, a), Type(d), Ext(d))
(* attributes deduced from the content, completing those of the name *)
Guess(d, a) ==
  [name |-> IF d.kind # "ION" /\ d.marker # "" THEN d.marker ELSE IF d.agency # "" THEN d.agency ELSE a.name,
   y |-> d.t.y, doy |-> d.t.doy, region |-> a.region,
   det |-> IF a.det # <<>> THEN <<[a.det[1] EXCEPT !.hh = d.t.hh, !.mm = d.t.mm, !.ppu = PpuOf(Span(d))]>>
           ELSE <<[batch |-> 0, country |-> "XXX", src |-> "U", hh |-> d.t.hh, mm |-> d.t.mm, ppu |-> PpuOf(Span(d)), ffu |-> Rate(d)]>>]

(* a name in which every field is known *)
Complete(s) == Len(s) >= 12 /\ Standard(Up(s))

\* --- transitions -----------------------------------------------------------
Init == phase = "new" /\ w = <<>> /\ given = "" /\ prod = NoAttr /\ custom = NoAttr /\ outs = <<>> /\ hist = <<>>
Record == phase = "new" /\ \E d \in SomeWorld(1) : w' = <<d>> /\ phase' = "recorded" /\ UNCHANGED <<given, prod, custom, outs, hist>>
Save == phase = "recorded" /\ \E s \in SomeGiven(w[1], 1) : given' = s /\ phase' = "saved" /\ UNCHANGED <<w, prod, custom, outs, hist>>
Read == phase = "saved" /\ prod' = ReadName(given) /\ phase' = "read" /\ UNCHANGED <<w, given, custom, outs, hist>>
Customize == phase = "read" /\ \E c \in SomeCustom(w[1]) : custom' = c /\ phase' = "ready" /\ UNCHANGED <<w, given, prod, outs, hist>>
Names == /\ phase = "ready" /\ phase' = "named"
         /\ LET d == w[1]
                g == Guess(d, prod)
            IN outs' = [short |-> Produce(d, prod, FALSE, TRUE), long |-> Produce(d, prod, FALSE, FALSE),
                        cshort |-> Produce(d, custom, TRUE, TRUE), clong |-> Produce(d, custom, TRUE, FALSE),
                        guess |-> g, gshort |-> Produce(d, g, TRUE, TRUE), glong |-> Produce(d, g, TRUE, FALSE)]
         /\ UNCHANGED <<w, given, prod, custom, hist>>
Round == [given |-> given, standard |-> Standard(Up(given)), prod |-> prod, custom |-> custom, outs |-> outs]
(* the file takes one of the names produced *)
Rename == /\ phase = "named" /\ Len(hist) + 1 < MaxRounds
          /\ \E k \in {"short", "long", "clong", "gshort", "glong"} :
               /\ Complete(outs[k]) /\ given' = outs[k]
          /\ hist' = Append(hist, Round) /\ phase' = "saved" /\ UNCHANGED <<w, prod, custom, outs>>
Finish == /\ phase = "named" /\ (Len(hist) + 1 = MaxRounds \/ ~\E k \in {"short", "long"} : Complete(outs[k]))
          /\ hist' = Append(hist, Round) /\ phase' = "done" /\ UNCHANGED <<w, given, prod, custom, outs>>
Report == phase = "done" /\ Emit([data |-> w[1], rounds |-> hist]) /\ phase' = "end" /\ UNCHANGED <<w, given, prod, custom, outs, hist>>
Next == Record \/ Save \/ Read \/ Customize \/ Names \/ Rename \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

\* --- what must hold --------------------------------------------------------
(* a produced name says what went into it *)
Faithful ==
  phase = "named" =>
    LET d == w[1]
        say(s, a, cust) ==
          Complete(s) =>
            LET r == ReadName(s)
            IN /\ r.doy = (IF cust THEN a.doy ELSE d.t.doy)
               /\ r.y % 100 = (IF cust THEN a.y ELSE d.t.y) % 100
               /\ r.name = Up(Prefix(a.name, IF d.kind = "ION" THEN 3 ELSE 4))
               /\ r.det # <<>> => /\ r.y = (IF cust THEN a.y ELSE d.t.y)
                                  /\ a.det # <<>> => r.det[1].batch = a.det[1].batch /\ r.det[1].country = a.det[1].country
                                                     /\ r.det[1].ppu = a.det[1].ppu
                                                     /\ (a.det[1].src # "U" => r.det[1].src = a.det[1].src)
                                  /\ ~cust => r.det[1].hh = d.t.hh /\ r.det[1].mm = d.t.mm
                                  /\ (Rate(d) # "" /\ d.kind # "NAV") => r.det[1].ffu = Rate(d)
    IN say(outs.short, prod, FALSE) /\ say(outs.long, prod, FALSE) /\ say(outs.cshort, custom, TRUE)
       /\ say(outs.clong, custom, TRUE) /\ say(outs.glong, outs.guess, TRUE)
(* a file that already has its standard name keeps it *)
Keeps(s) == LET a == ReadName(s) d == w[1]
            IN a.doy = d.t.doy /\ a.y = d.t.y
               /\ (a.det # <<>> => /\ a.det[1].hh = d.t.hh /\ a.det[1].mm = d.t.mm /\ (a.det[1].src # "U" \/ ~d.rcvr)
                                   /\ (d.kind # "NAV" => (a.det[1].ffu = Rate(d) \/ Rate(d) = "")))
Stable ==
  (phase = "named" /\ hist # <<>> /\ Keeps(given)) => Up(given) = Up(IF Len(given) < 30 THEN outs.short ELSE outs.long)
(* names have the length of the convention *)
Shape == phase = "named" => (Complete(outs.long) => Len(outs.long) = IF w[1].kind = "ION" THEN 12 ELSE IF w[1].kind = "NAV" THEN 34 ELSE 38)

\* --- exhaustive ------------------------------------------------------------
T(y, doy, hh, mm) == [y |-> y, doy |-> doy, hh |-> hh, mm |-> mm]
P(s) == [s |-> s, hz |-> 0]
Hz(n) == [s |-> 0, hz |-> n]
Seconds == {1, 5, 15, 30, 59} \cup {60, 90, 99, 120, 300, 900, 1800, 5940} \cup {3600, 5400, 7200, 86400, 2 * 86400}
Rates(k) == CASE k \in {"OBS", "CRX"} -> {P(s) : s \in Seconds} \cup {Hz(n) : n \in {2, 3, 5, 10, 20, 50, 99, 100, 500, 2500, 9900}}
              [] k = "MET" -> {P(s) : s \in Seconds}
              [] k = "ION" -> {P(900), P(3600), P(7200)}
              [] OTHER -> {P(7200), P(3600), P(1800)}
Systems(k) == CASE k \in {"OBS", "CRX"} -> {"G", "R", "E", "C", "J", "M"} [] k = "NAV" -> {"G", "R", "E", "C", "J", "S", "M"} [] OTHER -> {"M"}
Det(b, c, s, t, ppu, ffu) == [batch |-> b, country |-> c, src |-> s, hh |-> t.hh, mm |-> t.mm, ppu |-> ppu, ffu |-> ffu]
Attr(n, t, r, det) == [name |-> n, y |-> t.y, doy |-> t.doy, region |-> r, det |-> det]
(* the name a careful producer gives to d *)
Proper(d, n, r, b, c, s, ppu, short) ==
  Produce(d, Attr(n, d.t, IF d.kind = "ION" THEN r ELSE "", IF short THEN <<>> ELSE <<Det(b, c, s, d.t, ppu, IF Rate(d) = "" THEN "30S" ELSE Rate(d))>>), FALSE, short)

McWorld(h) == {Data(k, sys, t, n, p, rc, mk, "IGS") :
  k \in {"OBS", "NAV", "ION", "MET", "CRX"}, sys \in {"M", "R"}, t \in {T(2020, 366, 23, 59), T(1999, 1, 12, 0)}, n \in {1, 2}, p \in {P(3600), P(7200)},
  rc \in BOOLEAN, mk \in {"", "ESBC00DNK"}}
McOk(d) == d.sys \in Systems(d.kind) /\ d.p \in Rates(d.kind) /\ (d.rcvr => d.kind \in {"OBS", "CRX"})
McGiven(d, h) == IF ~McOk(d) THEN {} ELSE
   {Proper(d, "KMS3", "G", 12, "DNK", s, "01D", sh) : s \in Sources, sh \in BOOLEAN}
   \cup {Lo(Proper(d, "KMS3", "G", 0, "DNK", "R", "00U", sh)) : sh \in BOOLEAN}
   \cup {"data.txt", "AJAC355A.21O", "AJAC3550.21O.gz"}
McCustom(d) == {Attr("abcdef", T(2005, 7, 1, 2), "", <<>>), Attr("Wxyz", T(1996, 366, 23, 0), "E", <<Det(99, "FRA", "S", T(1996, 366, 23, 0), "01Y", Rate(d))>>)}

\* --- simulation ------------------------------------------------------------
RTime(h) == CHOOSE z \in {T(y, IF RandomElement(1..4) = 1 THEN (IF y % 4 = 0 THEN 366 ELSE 365) ELSE RandomElement({1, 2, 9, 10, 59, 60, 61, 99, 100, 182, 183, RandomElement(1..365)}), hm[1], hm[2])
   : y \in {RandomElement({1994, 1999, 2000, 2004, 2016, 2017, 2020, RandomElement(1990..2040), RandomElement(1990..2079)})},
     hm \in {RandomElement({<<0, 0>>, <<12, 0>>, <<23, 59>>, <<11, 59>>, <<RandomElement(0..23), RandomElement(0..59)>>})}} : TRUE
RPeriod(k) == IF k \in {"OBS", "CRX", "MET"} /\ Coin(1, 1, 3)
              THEN (CHOOSE z \in {P(s * u) : s \in {RandomElement(1..99)}, u \in {RandomElement({1, 60, 3600, 86400})}} : TRUE)
              ELSE CHOOSE z \in {x : x \in {RandomElement(Rates(k))}} : TRUE
Markers == {"ESBC", "ESBC00DNK", "esbc", "AJACCIO", "zeg2", "KMS300DNK", "P041"}
SimWorld(h) ==
  UNION {{Data(k, sys, t, n, p, rc, mk, ag) : sys \in {RandomElement(Systems(k))}, t \in {RTime(1)}, n \in {RandomElement({1, 2, 2, 3, 4, 5})}, p \in {RPeriod(k)},
     rc \in {Coin(1, 2, 3) /\ (k \in {"OBS", "CRX"})}, mk \in {IF k = "ION" \/ Coin(2, 1, 3) THEN "" ELSE RandomElement(Markers)}, ag \in {RandomElement({"CODE", "IGSAC", "jplx", "ESOC"})}}
   : k \in {RandomElement({"OBS", "OBS", "CRX", "MET", "NAV", "NAV", "ION"})}}

RCode(h) == CHOOSE z \in {Z(n, 2) \o u : n \in {RandomElement({1, 2, 5, 10, 30, 99, RandomElement(1..99)})}, u \in {RandomElement({"S", "M", "H", "D", "Z", "C"})}} : TRUE
RDet(d, t) == CHOOSE z \in {Det(b, c, s, t, ppu, f) :
   b \in {RandomElement({0, 0, 1, 9, 10, 12, 98, 99, RandomElement(0..99)})}, c \in {RandomElement({"DNK", "ESP", "FRA", "AUS", "MTQ", "XXX"})}, s \in {RandomElement(Sources)},
   ppu \in {RandomElement(Ppus)}, f \in {IF d.kind \in {"NAV", "ION"} THEN "" ELSE IF Rate(d) # "" THEN RandomElement({"", Rate(d)}) ELSE RandomElement({"", RCode(1)})}} : TRUE
RName(h) == RandomElement({"AJAC", "KMS3", "BRDC", "P041", "ZEGV", "0ABC", "MOJN"})
(* as above but with another date than the data's, or the rate of another file *)
Own(d, n, t, dt, short) ==
  IF d.kind = "ION" THEN Ionex(n, RandomElement({"G", "E", "A"}), Z(t.doy, 3), Z(t.y % 100, 2))
  ELSE IF short THEN Prefix(n, 4) \o Z(t.doy, 3) \o RandomElement({"0", "0", "A", "X", "1"}) \o "." \o Z(t.y % 100, 2) \o Letter(d)
  ELSE Long(n, dt.batch, dt.country, dt.src, ToString(t.y), Z(t.doy, 3), Z(t.hh, 2), Z(t.mm, 2), dt.ppu,
            IF d.kind = "NAV" THEN "" ELSE IF dt.ffu = "" THEN (IF Rate(d) = "" THEN "30S" ELSE Rate(d)) ELSE dt.ffu, Type(d), Ext(d))
RProper(d, h) == CHOOSE z \in {Own(d, n, t, dt, short) :
   n \in {RName(1)}, t \in {IF Coin(3, 3, 4) THEN d.t ELSE RTime(2)}, dt \in {RDet(d, d.t)}, short \in {Coin(4, 1, 3)}} : TRUE
Cut(s, i) == IF i >= Len(s) THEN s ELSE SubSeq(s, 1, i)
Put(s, i, c) == SubSeq(s, 1, i - 1) \o c \o From(s, i + 1)
(* a name spoilt in one place: a letter among digits, a missing or additional *)
(* character before the dot, a missing end                                    *)
DigitPlaces(s) == IF Len(s) < 20 THEN {5, 6, 7, 10, 11} ELSE {5, 6} \cup (13..23) \cup (IF Len(s) > 35 THEN {29, 30, 31} ELSE {})
Spoil(s, k, i, j) ==
  CASE k = 1 -> Put(s, i, "Q")
    [] k = 2 -> Put(s, j, "")
    [] k = 3 -> Put(s, j, "_" \o SubSeq(s, j, j))
    [] k = 4 -> Cut(s, j)
    [] k = 5 -> Cut(s, Dot(s, 1) + RandomElement(0..1))
    [] OTHER -> Put(s, RandomElement(DigitPlaces(s)), "?")
RSpoilt(s) == CHOOSE z \in {Spoil(s, k, i, j) : k \in {RandomElement(1..6)}, i \in {RandomElement(DigitPlaces(s))}, j \in {RandomElement(1..(Dot(s, 1) - 1))}} : TRUE
SimGiven(d, h) ==
  {CASE r <= 5 -> s [] r = 6 -> Lo(s) [] r = 7 -> s \o ".gz" [] r = 8 -> RSpoilt(s) [] r = 9 -> RSpoilt(s)
     [] OTHER -> RandomElement({"data.txt", "x", "abcdefgh.o", "ABCDEFGH.1", "12345678.", "a-long-name-without-any-meaning-at-all.rnx", "station.obs.gz"})
   : r \in {RandomElement(1..10)}, s \in {RProper(d, 1)}}
SimCustom(d) ==
  {Attr(n, t, r, dt) : n \in {RandomElement(Markers)}, t \in {RTime(3)}, r \in {RandomElement({"", "G", "E"})}, dt \in {IF Coin(5, 1, 4) THEN <<>> ELSE <<RDet(d, RTime(4))>>}}
=============================================================================
