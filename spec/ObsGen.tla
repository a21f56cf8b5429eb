------------------------------- MODULE ObsGen -------------------------------
(* Random observation files for simulation: declarations, satellites, values. *)
EXTENDS ObsText

PrnOf(l) == CASE l = "G" -> 1..32 [] l = "R" -> 1..27 [] l = "E" -> 1..36 [] l = "C" -> 1..63
              [] l = "J" -> 1..9 [] l = "I" -> 1..14 [] l = "S" -> 20..58
Pool2 == {a \o b : a \in {"C", "P", "L", "D", "S"}, b \in {"1", "2"}}
           \cup {a \o b : a \in {"C", "L", "D", "S"}, b \in {"5", "6", "7", "8"}}
Pool3 == {a \o b \o c : a \in {"C", "L", "D", "S"}, b \in {"1", "2", "5", "6", "7", "8"}, c \in {"C", "W", "X", "P", "Q", "I"}}
         \cup {"X1", "X2", "I1", "I5"}      \* pseudo observables: channel, ionosphere
NCode(h) == CASE RandomElement(1..4) = 1 -> RandomElement(1..3)
              [] RandomElement(1..3) = 1 -> RandomElement({4, 5, 6, 9, 10, 11, 13, 14})
              [] OTHER -> RandomElement(1..24)
Codes(v, head, h) ==
  IF v = 2
  THEN LET ls == IF head = "M" THEN {"G", "R", "S", "E"} ELSE {head}
       IN CHOOSE z \in {[l \in ls |-> cs] : cs \in {Draw(Pool2, Min2(24, NCode(h)))}} : TRUE
  ELSE IF head # "M" THEN CHOOSE z \in {[l \in {head} |-> cs] : cs \in {Draw(Pool3, NCode(h))}} : TRUE
  ELSE CHOOSE z \in {TLCEval([l \in {ls[i] : i \in 1..Len(ls)} |-> Draw(Pool3, NCode(l))])
                       : ls \in {Draw({"G", "R", "E", "C", "J", "I", "S"}, RandomElement(1..5))}} : TRUE

(* the time system of single constellation files, which the header may leave out *)
OwnTime(hd) == RandomElement({"", CASE hd = "G" -> "GPS" [] hd = "R" -> "GLO" [] hd = "E" -> "GAL" [] hd = "C" -> "BDT" [] hd = "J" -> "QZS" [] OTHER -> "GPS"})
SimCfg(h) ==
  {[ver |-> v, head |-> hd, codes |-> Codes(v, hd, h), trim |-> RandomElement({"none", "line"}),
    svf |-> IF v > 2 THEN "std"
            ELSE IF hd \in {"M", "S"} THEN RandomElement({"std", "blank"})
            ELSE RandomElement({"std", "std", "blank", "noletter", "noletterblank"}),
    zp |-> RandomElement({TRUE, FALSE}),
    ts |-> CASE hd = "M" \/ Coin(h, 1, 4) -> RandomElement({"GPS", "GLO", "GAL", "BDT", "QZS"})
             [] hd = "I" -> RandomElement({"IRN", "GPS"}) [] OTHER -> OwnTime(hd),
    y |-> y, mo |-> RandomElement(1..12), d |-> RandomElement(1..28), step |-> RandomElement(1..3)]
   : v \in {3, 4}, hd \in {RandomElement({"G", "R", "E", "C", "J", "S", "I", "M", "M", "M"})},
     y \in {RandomElement(1981..2079)}}
  \cup
  {[ver |-> 2, head |-> hd, codes |-> Codes(2, hd, h), trim |-> RandomElement({"none", "line"}),
    svf |-> IF hd \in {"M", "S"} THEN RandomElement({"std", "blank"})
            ELSE RandomElement({"std", "std", "blank", "noletter", "noletterblank"}),
    zp |-> RandomElement({TRUE, FALSE}),
    ts |-> IF hd = "M" \/ Coin(h, 1, 4) THEN RandomElement({"GPS", "GLO", "GAL"}) ELSE OwnTime(hd),
    y |-> y, mo |-> RandomElement(1..12), d |-> RandomElement(1..28), step |-> RandomElement(1..3)]
   : hd \in {RandomElement({"G", "R", "E", "S", "M", "M"})}, y \in {RandomElement(1980..2079)}}

(* a value of ten to fourteen columns *)
RVal(h) == CHOOSE z \in {PadL(Num([neg |-> neg, int |-> int, frac |-> frac], 3), 14) :
              neg \in {RandomElement(1..6) = 1},
              int \in {IF RandomElement(1..5) = 1 THEN RandomElement(100000000..999999999) ELSE RndNat(h)},
              frac \in {RandomElement(0..999)}} : TRUE
RInd(h) == IF RandomElement(1..2) = 1 THEN " " ELSE RandomElement({"0","1","2","3","4","5","6","7"})
RSsi(h) == IF RandomElement(1..2) = 1 THEN " " ELSE RandomElement({"0","1","2","3","4","5","6","7","8","9"})
RObsv(h) == [v |-> RVal(h), lli |-> RInd(h), ssi |-> RSsi(h)]
(* presence of the observations of a satellite: all, none, some, only the first, only the last *)
RSat(c, sv) ==
  LET n == NCodes(c, sv)
  IN CHOOSE z \in {TLCEval([sv |-> sv, obs |-> [i \in 1..n |->
        IF CASE m = 1 -> TRUE [] m = 2 -> FALSE [] m = 3 -> i = 1 [] m = 4 -> i = n
             [] m = 5 -> i <= (n + 1) \div 2 [] OTHER -> Coin(i, 1, 2)
        THEN RObsv(i) ELSE NoObs]]) : m \in {RandomElement({1, 1, 1, 2, 3, 4, 5, 6, 6, 6})}} : TRUE
NSat(h) == CASE RandomElement(1..8) = 1 -> RandomElement({11, 12, 13, 24, 25, 30})
             [] RandomElement(1..12) = 1 -> 0
             [] OTHER -> RandomElement(1..8)
(* receiver clock offset: F12.9 in RINEX 2, F15.12 later *)
RClk(c, h) ==
  IF RandomElement(1..3) # 1 THEN ""
  ELSE CHOOSE z \in {(IF neg THEN "-" ELSE "") \o u \o "." \o Z(a, 6) \o (IF V2(c) THEN Z(b % 1000, 3) ELSE Z(b, 6)) :
         neg \in {RandomElement(BOOLEAN)}, u \in {RandomElement({"0", "0", "", "9"})},
         a \in {RndNat(h) % 1000000}, b \in {RndNat(h) % 1000000}} : TRUE
AllSv(c) == UNION {{<<l, p>> : p \in PrnOf(l)} : l \in DOMAIN c.codes}
REpoch(c, n) ==
  CHOOSE z \in {TLCEval([k |-> "epoch", y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> (n * c.step) % 24,
     mi |-> n % 60, s |-> RandomElement(0..59),
     f |-> RandomElement({"0000000", "0000000", "0000000", "5000000", "0000001", "9999999", "0100000", "0010000"}),
     flag |-> RandomElement({0, 0, 0, 0, 1, 6}), clk |-> RClk(c, n),
     sats |-> [i \in 1..Len(svs) |-> RSat(c, svs[i])]]) : svs \in {Draw(AllSv(c), NSat(n))}} : TRUE
=============================================================================
