------------------------------ MODULE RnxHdr2 -------------------------------
(* H02: a writer puts down the fields of an IONEX, clock or antenna header,   *)
(* one line at a time, in any order, with comments and unrelated lines in     *)
(* between; a reader follows.                                                 *)
EXTENDS HdrText2

CONSTANTS SomeCfg(_), SomeItems(_), SomeNote(_), MaxNotes

VARIABLES cfg, todo, queue, want, st, lines, notes, phase
vars == <<cfg, todo, queue, want, st, lines, notes, phase>>

Init == /\ cfg = <<>> /\ todo = <<>> /\ queue = <<>> /\ want = Empty2 /\ st = Fresh2 /\ lines = <<>> /\ notes = 0 /\ phase = "start"

Out(l) == /\ lines' = Append(lines, l)
          /\ st' = TLCEval(Step2(st, l))

Start == /\ phase = "start"
         /\ \E c \in SomeCfg(0) : \E is \in SomeItems(c) :
              /\ cfg' = c /\ todo' = is
              /\ want' = [want EXCEPT !.ver = c.ver, !.typ = c.typ, !.sys = c.sys]
              /\ Out(WVers2(c))
         /\ phase' = "body" /\ UNCHANGED <<queue, notes>>
Begin == /\ phase = "body" /\ queue = <<>> /\ todo # <<>>
         /\ LET ls == TLCEval(W2(cfg, Head(todo)))
            IN /\ Out(ls[1]) /\ queue' = Tail(ls)
         /\ want' = TLCEval(Put2(want, Head(todo)))
         /\ todo' = Tail(todo) /\ UNCHANGED <<cfg, notes, phase>>
Continue == /\ phase = "body" /\ queue # <<>>
            /\ Out(Head(queue)) /\ queue' = Tail(queue)
            /\ UNCHANGED <<cfg, todo, want, notes, phase>>
Note == /\ phase = "body" /\ notes < MaxNotes
        /\ \E s \in SomeNote(notes) :
             /\ Out(W2(cfg, [f |-> "note", v |-> s])[1])
             /\ want' = Put2(want, [f |-> "note", v |-> s])
        /\ notes' = notes + 1 /\ UNCHANGED <<cfg, todo, queue, phase>>
Finish == /\ phase = "body" /\ queue = <<>> /\ todo = <<>>
          /\ Out(Lab(cfg, "", "END OF HEADER"))
          /\ phase' = "end" /\ UNCHANGED <<cfg, todo, queue, want, notes>>
Report == /\ phase = "end"
          /\ Emit([cfg |-> cfg, lines |-> lines, want |-> want])
          /\ phase' = "done" /\ UNCHANGED <<cfg, todo, queue, want, st, lines, notes>>

Next == Start \/ Begin \/ Continue \/ Note \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

Readable == st.err = ""
Faithful == phase \in {"end", "done"} => st.end /\ st.hd = want
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 85
Grows == [][\A f \in DOMAIN st.hd : st.hd[f] # Empty2[f] => st'.hd[f] # Empty2[f]]_vars

(* --- exhaustive: every reference system, every file type spelling, every pair of fields in both orders --- *)
It(f, v) == [f |-> f, v |-> v]
Sys == {"GPS", "GLO", "GNS", "MIX", "BEN", "ENV", "ERS", "GEO", "IRI", "NNS", "TOP"}
McCfg(h) == {[typ |-> "I", ver |-> v, long |-> l, sys |-> s] : v \in {"1.0", "1.1"}, l \in {"I", "IONOSPHERE MAPS"}, s \in Sys}
            \cup {[typ |-> "C", ver |-> v, long |-> l, sys |-> s] : v \in {"2.00", "3.00", "3.04"}, l \in {"C", "CLOCK DATA"}, s \in {"", "G", "R", "E", "C", "J", "I", "S", "M"}}
            \cup {[typ |-> "A", ver |-> v, long |-> "", sys |-> s] : v \in {"1.4", "1.3"}, s \in {"G", "R", "E", "C", "J", "I", "S", "M"}}
Other(k) ==
  CASE k = "aux" -> It("other", <<<<"DIFFERENTIAL CODE BIASES", "START OF AUX DATA">>, <<"   G01    -8.123     0.007", "PRN / BIAS / RMS">>,
                          <<"   G02     9.123     0.007", "PRN / BIAS / RMS">>, <<"   G  ABMF 97103M001           -1.234     0.012", "STATION / BIAS / RMS">>,
                          <<"DIFFERENTIAL CODE BIASES", "END OF AUX DATA">>>>)
    [] k = "soln" -> It("other", <<<<"     2    IGS14 : EXPONENT  BASE RADIUS", "# OF SOLN STA / TRF">>, <<"ABMF 97103M001             2919785712 -5383744891  1774604876", "SOLN STA NAME / NUM">>,
                           <<"ZIMM 14001M004             4331296880   567556153  4633133989", "SOLN STA NAME / NUM">>>>)
    [] k = "prn" -> It("other", <<<<"     3", "# OF SOLN SATS">>, <<"G01 G02 G03", "PRN LIST">>>>)
    [] k = "obs" -> It("other", <<<<"G    4 C1W L1W C2W L2W", "SYS / # / OBS TYPES">>>>)
    [] OTHER -> It("other", <<<<"     0", "MERGED FILE">>>>)
McItem(c, f) ==
  CASE f = "pgm" -> It(f, <<"A PROGRAM OF TWENTY.", "RUN BY TWENTY COLUMN", "20200101  235959 UTC">>)
    [] f = "dsc" -> It(f, <<"one line", "and MAPPING FUNCTION another">>)
    [] f = "first" -> It(f, <<2020, 12, 31, 0, 0, 0>>)
    [] f = "last" -> It(f, <<2021, 1, 1, 23, 59, 59>>)
    [] f = "intv" -> It(f, "7200")
    [] f = "maps" -> It(f, "13")
    [] f = "mapf" -> It(f, "QFAC")
    [] f = "elev" -> It(f, "12.5")
    [] f = "obsu" -> It(f, "double difference carrier phase")
    [] f = "nsta" -> It(f, "300")
    [] f = "nsat" -> It(f, "55")
    [] f = "rad" -> It(f, "6371.2")
    [] f = "dim" -> It(f, "3")
    [] f = "hgt" -> It(f, <<"200.0", "800.0", "50.0">>)
    [] f = "lat" -> It(f, <<"87.5", "-87.5", "-2.5">>)
    [] f = "lon" -> It(f, <<"-180.0", "-175.0", "5.0">>)
    [] f = "exp" -> It(f, "-3")
    [] f = "leap" -> It(f, "18")
    [] f = "tsid" -> It(f, "GPS")
    [] f = "types" -> It(f, <<"AR", "AS", "CR", "DR", "MS">>)
    [] f = "sname" -> It(f, <<IF Wide(c) THEN "ABMF00GLP" ELSE "USNO", "97103M001">>)
    [] f = "sref" -> It(f, "UTC(USNO) MASTER CLOCK VIA CONTINUOUS CABLE MONITOR")
    [] f = "ac" -> It(f, <<"USN", "USNO USING GIPSY/OASIS-II">>)
    [] f = "wclk" -> [f |-> f, k |-> "", v |-> <<<<"PIE1", "40456M001", "-0.123456789012E-03">>, <<"GOLD", "40405S031", "">>>>]
    [] f = "dcb" -> It(f, <<"G", "CC2NONCC", "p1c1bias.hist @ goby.nrl.navy.mil">>)
    [] f = "pcv" -> It(f, <<"R", "PAGES", "igs05.atx @ igscb.jpl.nasa.gov">>)
    [] f = "pcvt" -> It(f, <<"R", "AOAD/M_B", "SN 0001">>)
    [] OTHER -> Other(f)
Fields(c) == {"pgm"} \cup
  CASE c.typ = "I" -> {"dsc", "first", "last", "intv", "maps", "mapf", "elev", "obsu", "nsta", "nsat", "rad", "dim", "hgt", "lat", "lon", "exp", "aux"}
    [] c.typ = "C" -> {"leap", "tsid", "types", "sname", "sref", "ac", "wclk", "dcb", "pcv", "soln", "prn", "obs"}
    [] OTHER -> {"pcvt"}
McItems(c) ==
  IF c.sys \notin {"GPS", "G"} \/ c.ver \notin {"1.0", "1.4", "3.00", "3.04"} \/ c.long \notin {"I", "C", ""} THEN {<<>>}
  ELSE {<<McItem(c, p[1]), McItem(c, p[2])>> : p \in {q \in Fields(c) \X Fields(c) : q[1] # q[2]}}
       \cup {<<McItem(c, "pgm")>>}
       \cup (IF c.typ # "A" THEN {} ELSE {<<It("pcvt", <<k, t, s>>)>> : k \in {"A", "R"}, t \in {"", "AOAD/M_B        NONE"}, s \in {"", "SN 0001"}})
       \cup (IF c.typ # "I" THEN {} ELSE {<<It("mapf", v)>> : v \in {"NONE", "COSZ", "QFAC"}} \cup {<<It("exp", v)>> : v \in {"0", "-1", "2"}}
                                         \cup {<<It("intv", v)>> : v \in {"0", "900", "86400"}}
                                         \cup {<<It("obsu", "")>>})
       \cup (IF c.typ # "C" THEN {} ELSE {<<It("tsid", v)>> : v \in {"GPS", "GLO", "GAL", "QZS", "BDT", "UTC", "TAI"}}
                                         \cup {<<It("types", v)>> : v \in {<<"AR">>, <<"MS", "AS">>, <<"AS", "AR", "CR", "DR">>}}
                                         \cup {<<It("sname", <<"USNO", "40451S003">>)>>})
McNote(n) == {"a comment about the EXPONENT"}

(* --- simulation --- *)
Word(h) == CHOOSE z \in {Cat(TLCEval([i \in 1..n |-> RandomElement({"A", "b", "C", "x9", "-", "/", ".", "_", "0", "#", "Z", " q", ": w"})])) : n \in {RandomElement(1..8)}} : TRUE
Text(h, w) == CHOOSE z \in {IF Len(t) > w THEN Trim(SubSeq(t, 1, w)) ELSE t : t \in {Trim(Cat(TLCEval([i \in 1..n |-> Word(i) \o RandomElement({"", " ", "  "})])))
                              : n \in {RandomElement({1, 1, 2, 3, 12})}}} : TRUE
Name(h, n) == Cat(TLCEval([i \in 1..n |-> RandomElement({"A", "B", "G", "M", "0", "1", "7", "Z", "P"})]))
Domes(h) == Z(RandomElement(1..99999), 5) \o RandomElement({"M", "S"}) \o Z(RandomElement(1..999), 3)
Dec(h, top) == CHOOSE z \in {s \o ToString(u) \o "." \o ToString(f) : s \in {RandomElement({"", "-"})}, u \in {RandomElement(0..top)}, f \in {RandomElement(1..9)}} : TRUE
Exp12(h) == RandomElement({"", "-"}) \o "0." \o Z(RandomElement(100000..999999), 6) \o Z(RandomElement(0..999999), 6) \o "E" \o RandomElement({"-03", "-06", "+00", "-10", "-01", "+01"})
Tenth(x) == (IF x < 0 THEN "-" ELSE "") \o ToString((IF x < 0 THEN -x ELSE x) \div 10) \o "." \o ToString((IF x < 0 THEN -x ELSE x) % 10)
Axis(h, as, ds) == CHOOSE z \in {<<Tenth(a), Tenth(a + n * d), Tenth(d)>> : a \in {RandomElement(as)}, d \in {RandomElement(ds)}, n \in {RandomElement(1..20)}} : TRUE
RItem(c, f) ==
  CASE f = "pgm" -> It(f, <<Text(1, 20), Text(2, 20), RandomElement({"20210307  000000 UTC", "07-MAR-21 10:00", "20200101 235959 LCL"})>>)
    [] f = "dsc" -> It(f, TLCEval([i \in 1..RandomElement(1..4) |-> Text(i, 60)]))
    [] f \in {"first", "last"} -> It(f, <<RandomElement(1990..2079), RandomElement(1..12), RandomElement(1..28), RandomElement(0..23), RandomElement(0..59), RandomElement(0..59)>>)
    [] f = "intv" -> It(f, ToString(RandomElement({0, 900, 1800, 3600, 7200, RandomElement(1..86400)})))
    [] f = "maps" -> It(f, ToString(RandomElement({0, 1, 13, 25, 97, 99999})))
    [] f = "mapf" -> It(f, RandomElement({"NONE", "COSZ", "QFAC"}))
    [] f = "elev" -> It(f, Tenth(RandomElement(0..900)))
    [] f = "obsu" -> It(f, Text(1, 60))
    [] f \in {"nsta", "nsat"} -> It(f, ToString(RandomElement(0..9999)))
    [] f = "rad" -> It(f, Tenth(RandomElement({63710, 63712, 64210, RandomElement(0..99999)})))
    [] f = "dim" -> It(f, RandomElement({"2", "3"}))
    [] f = "hgt" -> It(f, Axis(1, {2000, 4500, 5067, 3500, 1005}, {500, 125, 1000, 7}))
    [] f = "lat" -> It(f, Axis(2, {875, 900, 700, 25, 0}, {-25, -50, -10, -5}))
    [] f = "lon" -> It(f, Axis(3, {-1800, -1795, 0, -300, 50}, {50, 25, 10, 3}))
    [] f = "exp" -> It(f, RandomElement({"-1", "0", "-2", "1", "-3", "2"}))
    [] f = "leap" -> It(f, ToString(RandomElement(0..99)))
    [] f = "tsid" -> It(f, RandomElement({"GPS", "GLO", "GAL", "QZS", "BDT", "UTC", "TAI"}))
    [] f = "types" -> It(f, Draw({"AR", "AS", "CR", "DR", "MS"}, RandomElement(1..5)))
    [] f = "sname" -> It(f, <<Name(1, IF Wide(c) THEN RandomElement({4, 9}) ELSE 4), Domes(1)>>)
    [] f = "sref" -> It(f, Text(1, 60))
    [] f = "ac" -> It(f, <<Name(1, 3), Text(2, 55)>>)
    [] f = "wclk" -> [f |-> f, k |-> RandomElement({"", " 1994 07 14  0  0  0.000000 1994 07 14 20 59 59.000000"}),
                      v |-> TLCEval([i \in 1..RandomElement(1..4) |-> <<Name(i, IF Wide(c) THEN RandomElement({3, 4, 9}) ELSE RandomElement({3, 4})), Domes(i), RandomElement({"", Exp12(i), Exp12(i)})>>])]
    [] f \in {"dcb", "pcv"} -> It(f, <<RandomElement({"G", "R", "E", "C", "J"}), Text(1, 17), Text(2, 40)>>)
    [] f = "pcvt" -> It(f, <<RandomElement({"A", "R"}), RandomElement({"", Text(1, 20)}), RandomElement({"", Text(2, 20)})>>)
    [] OTHER -> Other(f)
Shuffle(s) == CHOOSE z \in {[i \in 1..Len(s) |-> s[p[i]]] : p \in {Draw(1..Len(s), Len(s))}} : TRUE
Twice(fs) == fs \o SelectSeq(fs, LAMBDA f : f \in {"dcb", "pcv", "wclk", "prn"})
SimCfg(h) == {RandomElement({z \in McCfg(0) : z.typ = t}) : t \in {RandomElement({"I", "I", "C", "C", "C", "A"})}}
SimItems(c) == {Shuffle(TLCEval([i \in 1..Len(fs) |-> RItem(c, fs[i])])) : fs \in {Twice(Draw(Fields(c), RandomElement(1..18)))}}
SimNote(n) == {RandomElement({"", "END OF HEADER", "MAP DIMENSION", "RINEX VERSION / TYPE", "     1", Text(n, 60), Text(n, 60)})}
=============================================================================
