------------------------------- MODULE Signals -------------------------------
(* Q01: which carrier each RINEX observation code is broadcast on, and the    *)
(* linear combinations formed out of the signals one epoch holds.             *)
(* epoch = [t, flag, sig]; sig = [sv, code, v]: v thousandths of a meter      *)
(* (codes) or of a cycle (phases); frequencies are in kHz.                    *)
EXTENDS Text

CONSTANTS SomeSignals(_), MaxEpochs, Gaps

VARIABLES rec, len, done
vars == <<rec, len, done>>

(* --- carriers: RINEX 3.05 tables A2..A9, RINEX 2.11 table A1 --- *)
Band(s, b, f, a) == [s |-> s, b |-> b, f |-> f, a |-> a]
Bands == {
  Band("G", "1", 1575420, "CSLXPWYM"), Band("G", "2", 1227600, "CDSLXPWYM"), Band("G", "5", 1176450, "IQX"),
  Band("R", "1", 1602000, "CP"), Band("R", "4", 1600995, "ABX"), Band("R", "2", 1246000, "CP"), Band("R", "6", 1248060, "ABX"), Band("R", "3", 1202025, "IQX"),
  Band("E", "1", 1575420, "ABCXZ"), Band("E", "5", 1176450, "IQX"), Band("E", "7", 1207140, "IQX"), Band("E", "8", 1191795, "IQX"), Band("E", "6", 1278750, "ABCXZ"),
  Band("S", "1", 1575420, "C"), Band("S", "5", 1176450, "IQX"),
  Band("J", "1", 1575420, "CESLXZB"), Band("J", "2", 1227600, "SLX"), Band("J", "5", 1176450, "IQXDPZ"), Band("J", "6", 1278750, "SLXEZ"),
  Band("C", "2", 1561098, "IQX"), Band("C", "1", 1575420, "DPXSLZ"), Band("C", "5", 1176450, "DPX"), Band("C", "7", 1207140, "IQXDPZ"),
  Band("C", "8", 1191795, "DPX"), Band("C", "6", 1268520, "IQXDPZ"),
  Band("I", "5", 1176450, "ABCX"), Band("I", "9", 2492028, "ABCX") }
(* RINEX 2: letter and frequency number only; the precise code has a letter   *)
Old == { <<"G", "1", 1575420>>, <<"G", "2", 1227600>>, <<"G", "5", 1176450>>, <<"R", "1", 1602000>>, <<"R", "2", 1246000>>,
         <<"E", "1", 1575420>>, <<"E", "5", 1176450>>, <<"E", "6", 1278750>>, <<"E", "7", 1207140>>, <<"E", "8", 1191795>>,
         <<"S", "1", 1575420>>, <<"S", "5", 1176450>> }
Letters == {"C", "L", "D", "S"}
Table == {[s |-> b.s, c |-> l \o b.b \o Char(b.a, i), f |-> b.f] : b \in Bands, l \in Letters, i \in 1..9}
Codes3 == {x \in Table : Len(x.c) = 3 /\ Char(x.c, 3) # " "}
Codeless == {[s |-> "G", c |-> l \o b[1], f |-> b[2]] : l \in {"L", "D", "S"}, b \in {<<"1N", 1575420>>, <<"2N", 1227600>>}}
Codes2 == {[s |-> o[1], c |-> l \o o[2], f |-> o[3]] : o \in Old, l \in Letters}
          \cup {[s |-> o[1], c |-> "P" \o o[2], f |-> o[3]] : o \in {x \in Old : x[1] \in {"G", "R"} /\ x[2] # "5"}}
Known == Codes3 \cup Codeless \cup Codes2
FreqOf == [k \in {<<x.s, x.c>> : x \in Known} |-> (CHOOSE x \in Known : <<x.s, x.c>> = k).f]
(* a code names one carrier *)
ASSUME Cardinality(DOMAIN FreqOf) = Cardinality(Known)

(* --- expressions: sums of sign * frequencies * signal over sums --- *)
T(s, f, x) == [s |-> s, f |-> f, x |-> x]
Unit1 == <<T(1, <<>>, "")>>
GF(f1, x1, f2, x2) == [num |-> <<T(1, <<>>, x1), T(-1, <<>>, x2)>>, den |-> Unit1]
IF_(f1, x1, f2, x2) == [num |-> <<T(1, <<f1, f1>>, x1), T(-1, <<f2, f2>>, x2)>>, den |-> <<T(1, <<f1, f1>>, ""), T(-1, <<f2, f2>>, "")>>]
WL(f1, x1, f2, x2) == [num |-> <<T(1, <<f1>>, x1), T(-1, <<f2>>, x2)>>, den |-> <<T(1, <<f1>>, ""), T(-1, <<f2>>, "")>>]
NL(f1, x1, f2, x2) == [num |-> <<T(1, <<f1>>, x1), T(1, <<f2>>, x2)>>, den |-> <<T(1, <<f1>>, ""), T(1, <<f2>>, "")>>]
(* code x, its phase p on f1, another phase q on f2 *)
MP(f1, x, p, f2, q) == [num |-> <<T(1, <<f1, f1>>, x), T(-1, <<f2, f2>>, x), T(-1, <<f1, f1>>, p), T(1, <<f2, f2>>, p),
                                  T(-2, <<f2, f2>>, p), T(2, <<f2, f2>>, q)>>,
                        den |-> <<T(1, <<f1, f1>>, ""), T(-1, <<f2, f2>>, "")>>]

(* the algebra these combinations are named after, on small frequencies:      *)
(* x[k] is the value of signal k                                              *)
RECURSIVE Prod(_)
Prod(f) == IF f = <<>> THEN 1 ELSE Head(f) * Prod(Tail(f))
RECURSIVE Total(_, _)
Total(ts, x) == IF ts = <<>> THEN 0 ELSE Head(ts).s * Prod(Head(ts).f) * x[Head(ts).x] + Total(Tail(ts), x)
Numer(e, x) == Total(e.num, x)
Denom(e) == Total(e.den, [k \in {""} |-> 1])
ASSUME \A f1 \in 2..9 : \A f2 \in (2..9) \ {f1} :
  LET geo == [k \in {"1", "2", "x", "p", "q"} |-> 7]            \* same distance on both
      code == ("1" :> f2 * f2) @@ ("2" :> f1 * f1)              \* ionosphere: delay of codes, as 1 / f^2,
      phase == ("1" :> -(f2 * f2)) @@ ("2" :> -(f1 * f1))       \* advance of phases
      mixed == ("x" :> code["1"]) @@ ("p" :> phase["1"]) @@ ("q" :> phase["2"])
  IN /\ Numer(GF(f1, "1", f2, "2"), geo) = 0
     /\ \A e \in {IF_(f1, "1", f2, "2"), WL(f1, "1", f2, "2"), NL(f1, "1", f2, "2")} : Numer(e, geo) = 7 * Denom(e)
     /\ Numer(IF_(f1, "1", f2, "2"), code) = 0 /\ Numer(IF_(f1, "1", f2, "2"), phase) = 0
     /\ Numer(MP(f1, "x", "p", f2, "q"), geo) = 0 /\ Numer(MP(f1, "x", "p", f2, "q"), mixed) = 0
     \* wide lane of phases and narrow lane of codes see the same ionosphere
     /\ Numer(WL(f1, "1", f2, "2"), phase) * Denom(NL(f1, "1", f2, "2")) = Numer(NL(f1, "1", f2, "2"), code) * Denom(WL(f1, "1", f2, "2"))

(* --- growing a record --- *)
Init == rec = <<>> /\ len = -1 /\ done = FALSE
Start == len = -1 /\ len' \in Some(0..MaxEpochs) /\ UNCHANGED <<rec, done>>
Grow == /\ len # -1 /\ Len(rec) < len
        /\ \E g \in Some(Gaps) : \E f \in Some({0, 1}) : \E s \in SomeSignals(rec) :
             rec' = Append(rec, [t |-> (IF rec = <<>> THEN 0 ELSE Last(rec).t + g), flag |-> f, sig |-> s])
        /\ UNCHANGED <<len, done>>

(* --- combinations --- *)
Sys(sv) == SubSeq(sv, 1, 1)
F(s) == FreqOf[<<Sys(s.sv), s.code>>]
Has(s) == <<Sys(s.sv), s.code>> \in DOMAIN FreqOf
IsPhase(s) == Char(s.code, 1) = "L"
IsRange(s) == Char(s.code, 1) \in {"C", "P"}
Suffix(s) == From(s.code, 2)
(* reference signals: L1 and its equivalents. NavIC has none below RINEX 4    *)
Pivot(s) == Has(s) /\ LET f == F(s) IN
  CASE Sys(s.sv) \in {"G", "E", "J", "S"} -> f = 1575420
    [] Sys(s.sv) = "R" -> f = 1602000
    [] Sys(s.sv) = "C" -> f = 1561098
    [] OTHER -> FALSE
Pairs(e) == {<<j, r>> \in (1..Len(e.sig)) \X (1..Len(e.sig)) :
  LET a == e.sig[j]  b == e.sig[r]
  IN /\ a.sv = b.sv /\ Has(a) /\ ~Pivot(a) /\ Pivot(b)
     /\ (IsPhase(a) /\ IsPhase(b)) \/ (IsRange(a) /\ IsRange(b))}
Narrow(e, p) == {q \in Pairs(e) : IsPhase(e.sig[p[1]]) /\ IsRange(e.sig[q[1]]) /\ e.sig[q[1]].sv = e.sig[p[1]].sv
                   /\ Suffix(e.sig[q[1]]) = Suffix(e.sig[p[1]]) /\ Len(e.sig[p[1]].code) = 3}
Ref(e, p, Op(_, _, _, _)) == Op(F(e.sig[p[2]]), p[2], F(e.sig[p[1]]), p[1])
GFof(e, p) == IF IsPhase(e.sig[p[1]]) THEN Ref(e, p, GF) ELSE GF(0, p[1], 0, p[2])
Combos(e) == {[lhs |-> p[1], ref |-> p[2], gf |-> GFof(e, p), if |-> Ref(e, p, IF_), wl |-> Ref(e, p, WL), nl |-> Ref(e, p, NL),
               mw |-> {Ref(e, q, NL) : q \in Narrow(e, p)}] : p \in Pairs(e)}
Multipath(e) == {[sig |-> w[1], rhs |-> w[2], mp |-> MP(F(e.sig[w[1]]), w[3], w[1], F(e.sig[w[2]]), w[2])] : w \in
  {<<p, q, r>> \in (1..Len(e.sig)) \X (1..Len(e.sig)) \X (1..Len(e.sig)) :
    LET a == e.sig[p]  b == e.sig[q]  c == e.sig[r]
    IN /\ a.sv = b.sv /\ a.sv = c.sv /\ IsPhase(a) /\ IsPhase(b) /\ IsRange(c) /\ Has(a) /\ Has(b) /\ Has(c)
       /\ Len(a.code) = 3 /\ Suffix(a) = Suffix(c) /\ F(a) # F(b)}}
Tec(e) == IF e.flag # 0 THEN {} ELSE
  {<<p, q>> \in (1..Len(e.sig)) \X (1..Len(e.sig)) :
    LET a == e.sig[p]  b == e.sig[q]
    IN a.sv = b.sv /\ IsPhase(a) /\ IsPhase(b) /\ Has(a) /\ Has(b) /\ F(a) = 1575420 /\ F(b) # F(a)}
Carriers(r) == UNION {{F(r[i].sig[j]) : j \in {j \in 1..Len(r[i].sig) : Has(r[i].sig[j])}} : i \in 1..Len(r)}
Suffixes(r) == UNION {{Suffix(r[i].sig[j]) : j \in {j \in 1..Len(r[i].sig) : Len(r[i].sig[j].code) = 3}} : i \in 1..Len(r)}

Finish == /\ ~done /\ len # -1 /\ Len(rec) = len
          /\ Emit([rec |-> rec, combos |-> [i \in 1..Len(rec) |-> Combos(rec[i])], multipath |-> [i \in 1..Len(rec) |-> Multipath(rec[i])],
                   tec |-> [i \in 1..Len(rec) |-> Tec(rec[i])], carriers |-> Carriers(rec), suffixes |-> Suffixes(rec)])
          /\ done' = TRUE /\ UNCHANGED <<rec, len>>
Next == Start \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars

(* a combination involves two signals of one satellite, on two carriers, that *)
(* measure the same thing; the reference of a reference is not formed         *)
Sound == \A i \in 1..Len(rec) : \A c \in Combos(rec[i]) :
  LET a == rec[i].sig[c.lhs]  b == rec[i].sig[c.ref]
  IN a.sv = b.sv /\ F(a) # F(b) /\ IsPhase(a) = IsPhase(b)
Complete == \A i \in 1..Len(rec) : LET e == rec[i] IN
  \A p \in {p \in 1..Len(e.sig) : Pivot(e.sig[p])} : \A j \in 1..Len(e.sig) :
    (Char(e.sig[p].code, 1) \in {"C", "L"} /\ e.sig[j].sv = e.sig[p].sv /\ Char(e.sig[j].code, 1) = Char(e.sig[p].code, 1) /\ Has(e.sig[j]) /\ F(e.sig[j]) # F(e.sig[p]))
      => \E c \in Combos(e) : c.lhs = j

(* --- table of carriers --- *)
TableInit == rec = <<>> /\ len = 0 /\ done = FALSE
TableNext == ~done /\ Emit([table |-> Known, n |-> len]) /\ done' = TRUE /\ UNCHANGED <<rec, len>>
TableSpec == TableInit /\ [][TableNext]_vars

(* --- exhaustive --- *)
McCodes == {"C1C", "C2W", "L1C", "L1W", "L2W", "L5Q"}
McVal(c) == CASE c = "C1C" -> 11000 [] c = "C2W" -> 12500 [] c = "L1C" -> 57000 [] c = "L1W" -> 58000 [] c = "L2W" -> 48125 [] OTHER -> 45250
McSignals(r) == {[i \in 1..Len(o) |-> [sv |-> "G01", code |-> o[i], v |-> McVal(o[i]) + 17 * Len(r)]] : o \in
  {<<>>} \cup {<<a>> : a \in McCodes} \cup {<<a, b>> \in McCodes \X McCodes : a # b} \cup
  (IF r # <<>> THEN {} ELSE {o \in McCodes \X McCodes \X McCodes : Cardinality({o[i] : i \in 1..3}) = 3})}

(* --- simulation --- *)
(* the code takes band 5 of Galileo in RINEX 2 for E5 (known finding)         *)
Misread(x) == x.s = "E" /\ Len(x.c) = 2 /\ Char(x.c, 2) = "5"
Systems == {"G", "R", "E", "S", "J", "C", "I"}
CodesOf == [s \in Systems |-> {x.c : x \in {x \in Known : x.s = s /\ ~Misread(x) /\ Char(x.c, 1) \in {"C", "L", "P"}}}]
Rare == [s \in Systems |-> {x.c : x \in {x \in Known : x.s = s /\ ~Misread(x) /\ Char(x.c, 1) \in {"D", "S"}}}]
Common == [s \in Systems |-> CASE s = "G" -> {"C1C", "L1C", "C1W", "L1W", "C2W", "L2W", "C2L", "L2L", "C5Q", "L5Q"}
                               [] s = "R" -> {"C1C", "L1C", "C1P", "L1P", "C2C", "L2C", "C2P", "L2P", "C3Q", "L3Q"}
                               [] s = "E" -> {"C1C", "L1C", "C5Q", "L5Q", "C7Q", "L7Q", "C8Q", "L8Q", "C6C", "L6C"}
                               [] s = "S" -> {"C1C", "L1C", "C5I", "L5I", "C5Q", "L5Q"}
                               [] s = "J" -> {"C1C", "L1C", "C1L", "L1L", "C2L", "L2L", "C5Q", "L5Q", "C6Z", "L6Z"}
                               [] s = "C" -> {"C2I", "L2I", "C7I", "L7I", "C6I", "L6I", "C1P", "L1P", "C5P", "L5P"}
                               [] s = "I" -> {"C5A", "L5A", "C9A", "L9A"}]
Past == [s \in Systems |-> {x.c : x \in {x \in Codes2 : x.s = s /\ ~Misread(x) /\ Char(x.c, 1) \in {"C", "L", "P"}}}]
Pool(s) == CHOOSE z \in {IF k = 1 THEN CodesOf[s] ELSE IF k = 2 THEN Past[s] ELSE IF k = 3 THEN Common[s] \cup Rare[s] ELSE Common[s]
                         : k \in {RandomElement({1, 2, 3, 4, 4, 4, 4})}} : TRUE
RPrn(s) == IF s = "S" THEN RandomElement({"23", "36"}) ELSE RandomElement({"01", "02", "11", "07"})
RVal(h) == RandomElement(0..9999) * 200000 + RandomElement(0..999) * 200 + RandomElement(0..199)
Listed(sv, cs) == [i \in 1..Len(cs) |-> [sv |-> sv, code |-> cs[i], v |-> RVal(i)]]
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET h == Head(s) IN <<h>> \o Uniq(SelectSeq(Tail(s), LAMBDA x : x # h))
SatList(n) == CHOOSE z \in {Uniq([i \in 1..n |-> CHOOSE y \in {s \o RPrn(s) : s \in {RandomElement(IF i = 1 THEN {"G", "R", "E", "J", "C"} ELSE Systems)}} : TRUE])} : TRUE
SimSignals(r) == {TLCEval(FlatSeq([i \in 1..Len(l) |-> CHOOSE z \in {Listed(l[i], Draw(Pool(Sys(l[i])), RandomElement(0..9)))} : TRUE]))
                  : l \in {TLCEval(CHOOSE z \in {IF r # <<>> /\ Coin(Len(r), 2, 3) THEN Uniq([i \in 1..Len(Last(r).sig) |-> Last(r).sig[i].sv])
                                                  ELSE SatList(RandomElement(1..3))} : TRUE)}}
=============================================================================
