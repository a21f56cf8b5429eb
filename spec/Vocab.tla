-------------------------------- MODULE Vocab --------------------------------
(* V01: the words of the formats (observation codes, weather observables,     *)
(* signal strengths, epoch flags, marker types, carriers, navigation          *)
(* messages, revisions), what each means and how it is printed; and the       *)
(* drift of a clock observed again and again.                                 *)
EXTENDS Text

CONSTANTS Words, ClockSteps, Gaps, Offsets

VARIABLES word, clk, hist, done
vars == <<word, clk, hist, done>>

Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Alpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

(* --- observables --- *)
(* physics of an observation code by its first letter                         *)
Physics == ("C" :> "range") @@ ("P" :> "range") @@ ("L" :> "phase") @@ ("D" :> "doppler") @@ ("S" :> "ssi") @@ ("X" :> "channel") @@ ("I" :> "iono")
Attr == {""} \cup {Char(Alpha, i) : i \in 1..26}
Obs(l, b, a) == [kind |-> "obs", text |-> l \o b \o a, means |-> Physics[l], prints |-> l \o b \o a,
                 code |-> IF a # "" /\ l \notin {"X", "I"} THEN b \o a ELSE ""]
Bands == {Dig[i] : i \in 2..10}
ObsWords == {Obs(l, b, a) : l \in {"C", "L", "D", "S"}, b \in Bands, a \in Attr}
            \cup {Obs("P", b, "") : b \in {"1", "2"}} \cup {Obs(l, b, "") : l \in {"X", "I"}, b \in Bands}
Weather == {"PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"}
MetWords == {[kind |-> "obs", text |-> w, means |-> w, prints |-> w, code |-> ""] : w \in Weather}
(* not words of any format: a letter that starts none, too long, too short    *)
NotObs == {[kind |-> "obs", text |-> w, means |-> "", prints |-> "", code |-> ""] :
           w \in {Char(Alpha, i) \o b : i \in {1, 2, 5, 7, 10, 11, 13, 17, 21, 22, 25}, b \in {"1", "1C", "9X"}}
                 \cup {"1C", "11", "C1CC", "L1CX", "", "C", "L", "1"}}

(* --- signal strength: digit, closed interval of dBHz it stands for --- *)
Snr == [d \in 1..9 |-> CASE d = 1 -> <<0, 11>> [] d = 9 -> <<54, 99>> [] OTHER -> <<6 * d, 6 * d + 5>>]
SnrWord(d) == [kind |-> "snr", text |-> Dig[d + 1], means |-> ToString(d), prints |-> Dig[d + 1],
               bad |-> d <= 3, weak |-> d <= 4, strong |-> d >= 5, excellent |-> d >= 8]
SnrWords == {SnrWord(d) : d \in 0..9}
SnrLevel(db) == CHOOSE d \in 1..9 : db >= Snr[d][1] /\ db <= Snr[d][2]
(* tenths of dBHz; between two intervals the choice is free                   *)
SnrValues == {[kind |-> "snrdb", text |-> ToString(x), means |-> ToString(CHOOSE d \in 1..9 : 10 * Snr[d][1] <= x /\ x <= 10 * Snr[d][2])] :
              x \in {x \in 0..990 : \E d \in 1..9 : 10 * Snr[d][1] <= x /\ x <= 10 * Snr[d][2]}}
(* the standard's own formula agrees                                          *)
ASSUME \A db \in 0..99 : SnrLevel(db) = LET q == db \div 6 IN IF q < 1 THEN 1 ELSE IF q > 9 THEN 9 ELSE q

(* --- epoch flags --- *)
FlagNames == <<"Ok", "PowerFailure", "AntennaBeingMoved", "NewSiteOccupation", "HeaderInformationFollows", "ExternalEvent", "CycleSlip">>
FlagWords == {[kind |-> "flag", text |-> Dig[i], means |-> FlagNames[i], prints |-> Dig[i]] : i \in 1..7}
             \cup {[kind |-> "flag", text |-> w, means |-> "", prints |-> ""] : w \in {"7", "8", "9", "A", "", "10"}}

(* --- markers --- *)
MarkerNames == ("GEODETIC" :> "Geodetic") @@ ("NON_GEODETIC" :> "NonGeodetic") @@ ("NON_PHYSICAL" :> "NonPhysical") @@ ("SPACEBORNE" :> "Spaceborne")
  @@ ("AIRBORNE" :> "Airborne") @@ ("WATER_CRAFT" :> "Watercraft") @@ ("GROUND_CRAFT" :> "Groundcraft") @@ ("FIXED_BUOY" :> "FixedBuoy")
  @@ ("FLOATING_BUOY" :> "FloatingBuoy") @@ ("FLOATING_ICE" :> "FloatingIce") @@ ("GLACIER" :> "Glacier") @@ ("BALLISTIC" :> "Ballistic")
  @@ ("ANIMAL" :> "Animal") @@ ("HUMAN" :> "Human")
MarkerWords == {[kind |-> "marker", text |-> w, means |-> MarkerNames[w], prints |-> w] : w \in DOMAIN MarkerNames}
               \cup {[kind |-> "marker", text |-> w, means |-> "", prints |-> ""] : w \in {"GEODETIC2", "ROBOT", "", "NON"}}
(* DOMES numbers: five digits, monument (M) or instrument (S), three digits   *)
DomesWords == {[kind |-> "domes", text |-> a \o k \o b, means |-> a \o k \o b, prints |-> a \o k \o b] :
               a \in {"10118", "00001", "99999", "40405"}, k \in {"M", "S"}, b \in {"001", "000", "123", "999", "010"}}

(* --- carriers: name, kHz --- *)
CarrierKhz == ("L1" :> 1575420) @@ ("L2" :> 1227600) @@ ("L5" :> 1176450) @@ ("L6" :> 1278750)
  @@ ("E1" :> 1575420) @@ ("E5" :> 1191795) @@ ("E6" :> 1278750) @@ ("G1" :> 1602000) @@ ("G2" :> 1246000) @@ ("G1A" :> 1600995) @@ ("G2A" :> 1248060)
  @@ ("B1I" :> 1561098) @@ ("B1A" :> 1575420) @@ ("B1C" :> 1575420) @@ ("B2" :> 1191795) @@ ("B2A" :> 1176450) @@ ("B2I" :> 1207140) @@ ("B2B" :> 1207140)
  @@ ("B3" :> 1268520) @@ ("B3A" :> 1268520) @@ ("S1" :> 2036250) @@ ("U2" :> 401250) @@ ("S" :> 2492028)
(* GLONASS signals print under the name their band has in observation codes   *)
CarrierPrint(w) == CASE w \in {"G1", "G1A"} -> "L1" [] w \in {"G2", "G2A"} -> "L2" [] OTHER -> w
CarrierWords == {[kind |-> "carrier", text |-> w, means |-> ToString(CarrierKhz[w]), prints |-> CarrierPrint(w)] : w \in DOMAIN CarrierKhz}
                \cup {[kind |-> "carrier", text |-> w, means |-> "", prints |-> ""] : w \in {"", "L", "L9", "X1", "B9", "E", "G"}}
(* GLONASS FDMA: sixteenths of MHz                                            *)
GloWords == {[kind |-> "glo", text |-> b, k |-> k, means |-> ToString(IF b = "L1" THEN 1602 * 16 + 9 * k ELSE 1246 * 16 + 7 * k), prints |-> b] : b \in {"L1", "L2"}, k \in -7..6}
(* the ratio of the two bands of a channel is 9/7                             *)
ASSUME \A k \in -7..6 : (1602 * 16 + 9 * k) * 7 = (1246 * 16 + 7 * k) * 9

(* --- navigation messages and frames --- *)
NavMsgs == {"LNAV", "FDMA", "FNAV", "INAV", "IFNV", "D1", "D2", "D1D2", "SBAS", "CNAV", "CNV1", "CNV2", "CNV3", "CNVX"}
Frames == {"EPH", "ION", "STO", "EOP"}
NavWords == {[kind |-> "msg", text |-> w, means |-> w, prints |-> w] : w \in NavMsgs} \cup {[kind |-> "msg", text |-> w, means |-> "", prints |-> ""] : w \in {"", "D3", "XNAV", "CNV4"}}
            \cup {[kind |-> "frame", text |-> w, means |-> w, prints |-> w] : w \in Frames} \cup {[kind |-> "frame", text |-> w, means |-> "", prints |-> ""] : w \in {"", "EPO", "ALM"}}

(* --- revisions --- *)
Rev(a, b, t) == [kind |-> "version", text |-> t, means |-> ToString(a) \o "." \o ToString(b), prints |-> ToString(a) \o "." \o ToString(b), ok |-> a < 4 \/ (a = 4 /\ b = 0),
                 down |-> [k \in 1..4 |-> IF k >= a THEN 1 ELSE a - k]]
RevWords == {Rev(a, b, ToString(a) \o ".0" \o ToString(b)) : a \in 1..5, b \in 0..9} \cup {Rev(a, b, ToString(a) \o "." \o ToString(b)) : a \in 1..4, b \in {10, 11, 12, 20, 30}}
            \cup {Rev(a, 0, ToString(a)) : a \in 1..5}
BadRevs == {[kind |-> "version", text |-> w, means |-> "", prints |-> "", ok |-> FALSE, down |-> <<>>] : w \in {"", "a", "3.x", "x.01", ".", "-3.04"}}

All == ObsWords \cup MetWords \cup NotObs \cup SnrWords \cup SnrValues \cup FlagWords \cup MarkerWords \cup DomesWords \cup CarrierWords \cup GloWords \cup NavWords \cup RevWords \cup BadRevs

(* a word means one thing; what is printed reads back to the same meaning     *)
Good == {w \in All : w.kind \in {"obs", "snr", "flag", "marker", "domes", "msg", "frame", "version"} /\ w.prints # ""}
ReadsOf(kind, t) == {w.means : w \in {w \in Good : w.kind = kind /\ w.text = t}}
ASSUME \A w \in Good : w.kind # "version" => ReadsOf(w.kind, w.text) = {w.means} /\ ReadsOf(w.kind, w.prints) = {w.means}
(* and two meanings never print alike                                         *)
ASSUME \A w \in {w \in Good : w.kind # "obs"} : \A v \in {v \in Good : v.kind = w.kind} : v.prints = w.prints => v.means = w.means

(* --- a clock: offset known since when, drift between the last two --- *)
(* offsets in nanoseconds, instants in seconds; drift as a fraction           *)
None == <<>>
Init == word = <<>> /\ clk = [at |-> -1, off |-> 0, drift |-> None] /\ hist = <<>> /\ done = FALSE
Read == /\ ~done /\ hist = <<>> /\ \E w \in Words : word' = <<w>> /\ Emit([word |-> w]) /\ done' = TRUE
        /\ UNCHANGED <<clk, hist>>
Observe == /\ ~done /\ Len(hist) < ClockSteps
           /\ \E g \in Some(Gaps) : \E o \in Some(Offsets) :
                LET t == IF clk.at = -1 THEN 0 ELSE clk.at + g
                    n == [at |-> t, off |-> o, drift |-> IF clk.at = -1 THEN None ELSE <<o - clk.off, g>>]
                IN clk' = n /\ hist' = Append(hist, n)
           /\ UNCHANGED <<word, done>>
Stop == /\ ~done /\ hist # <<>> /\ Len(hist) = ClockSteps /\ Emit([clock |-> hist]) /\ done' = TRUE /\ UNCHANGED <<word, clk, hist>>
Next == Read \/ Observe \/ Stop
Spec == Init /\ [][Next]_vars

(* summing the drifts over their spans gives the change of the offset         *)
RECURSIVE Slips(_)
Slips(h) == IF Len(h) < 2 THEN 0 ELSE Last(h).drift[1] + Slips(SubSeq(h, 1, Len(h) - 1))
Telescopes == hist # <<>> => Slips(hist) = Last(hist).off - hist[1].off

McWords == All
NoWords == {}
McOffsets == {0, 7, 1000}
SimOffsets == {x * 1000 : x \in 0..10000}
=============================================================================
