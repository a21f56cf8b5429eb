-------------------------------- MODULE Query --------------------------------
(* X01: two observation data sets grow side by side; then one is subtracted   *)
(* from the other and queried.                                                *)
(* epoch = [t, flag, clk, sig]; sig = [sv, code, v, lli (None), ssi]          *)
EXTENDS Text

CONSTANTS SomeEpoch(_, _), MaxEpochs, Masks

VARIABLES recs, n, len, done
vars == <<recs, n, len, done>>
None == 9
NoClk == 999999

Key(e) == <<e.t, e.flag>>
Keys(r) == {Key(r[i]) : i \in 1..Len(r)}
SigKey(s) == <<s.sv, s.code>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Insert(_, _)
Insert(r, e) == IF r = <<>> THEN <<e>>
                ELSE IF Before(Key(e), Key(Head(r))) THEN <<e>> \o r
                ELSE <<Head(r)>> \o Insert(Tail(r), e)

Init == recs = <<<<>>, <<>>>> /\ n = 0 /\ len = -1 /\ done = FALSE
Start == /\ len = -1 /\ len' \in Some(0..MaxEpochs) /\ UNCHANGED <<recs, n, done>>
Grow == /\ len # -1 /\ n < len
        /\ \E w \in Some(1..2) : \E e \in SomeEpoch(recs, w) :
             recs' = IF Key(e) \in Keys(recs[w]) THEN recs ELSE TLCEval([recs EXCEPT ![w] = Insert(@, e)])
        /\ n' = n + 1 /\ UNCHANGED <<len, done>>

(* --- difference --- *)
At(r, k) == r[CHOOSE i \in 1..Len(r) : Key(r[i]) = k]
Minus(e, r) ==
  [e EXCEPT !.sig = [i \in 1..Len(e.sig) |->
    LET s == e.sig[i]
        hits == IF Key(e) \in Keys(r) THEN LET o == At(r, Key(e)).sig IN {o[j] : j \in {j \in 1..Len(o) : SigKey(o[j]) = SigKey(s)}} ELSE {}
    IN IF hits = {} THEN s ELSE [s EXCEPT !.v = @ - (CHOOSE h \in hits : TRUE).v]]]
Diff(a, b) == [i \in 1..Len(a) |-> Minus(a[i], b)]
Plus(e, r) == [e EXCEPT !.sig = [i \in 1..Len(e.sig) |->
    LET s == e.sig[i]
        hits == IF Key(e) \in Keys(r) THEN LET o == At(r, Key(e)).sig IN {o[j] : j \in {j \in 1..Len(o) : SigKey(o[j]) = SigKey(s)}} ELSE {}
    IN IF hits = {} THEN s ELSE [s EXCEPT !.v = @ + (CHOOSE h \in hits : TRUE).v]]]

(* --- queries: positions <<epoch, signal>> --- *)
Letter(c) == SubSeq(c, 1, 1)
IsCode(c) == Letter(c) \in {"C", "P"}
IsPhase(c) == Letter(c) = "L"
RECURSIVE Pick(_, _, _, _)
Pick(r, Test(_, _), i, j) ==
  IF i > Len(r) THEN <<>>
  ELSE IF j > Len(r[i].sig) THEN Pick(r, Test, i + 1, 1)
  ELSE (IF Test(r[i], r[i].sig[j]) THEN << <<i, j>> >> ELSE <<>>) \o Pick(r, Test, i, j + 1)
Bit(s, b) == s.lli # None /\ (s.lli \div b) % 2 = 1
All(e, s) == TRUE
Range(e, s) == IsCode(s.code)
Phase(e, s) == IsPhase(s.code)
Doppler(e, s) == Letter(s.code) = "D"
Strength(e, s) == Letter(s.code) = "S"
Ok(e, s) == e.flag = 0
OkRange(e, s) == Ok(e, s) /\ Range(e, s)
OkPhase(e, s) == Ok(e, s) /\ Phase(e, s)
(* quality of one signal: an indicator that is missing does not condemn it, *)
(* except when a strength is asked for                                       *)
Locked(s) == s.lli \in {None, 0}
Good(s) == Locked(s) /\ (s.ssi = None \/ s.ssi >= 5)
GoodFrom(k, s) == Locked(s) /\ s.ssi # None /\ s.ssi >= k
Tracked(e, s) == OkPhase(e, s) /\ ~Bit(s, 1) /\ ~Bit(s, 2)
Slip(e, s) == Phase(e, s) /\ Bit(s, 1)
HalfSlip(e, s) == Phase(e, s) /\ (Bit(s, 1) \/ Bit(s, 2))
(* what is left when the record is edited through its iterators: each value raised, each clock raised, lists turned over *)
Raised(r, dv, dc) == [i \in 1..Len(r) |-> [r[i] EXCEPT !.clk = IF @ = NoClk THEN @ ELSE @ + dc,
                                          !.sig = [j \in 1..Len(@) |-> [@[Len(@) + 1 - j] EXCEPT !.v = @ + dv]]]]
(* the phases that survive a mask; every other observation does *)
RECURSIVE And(_, _)
And(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE (IF x % 2 = 1 /\ y % 2 = 1 THEN 1 ELSE 0) + 2 * And(x \div 2, y \div 2)
Keep(m, s) == ~IsPhase(s.code) \/ (s.lli # None /\ And(s.lli, m) # 0)
MaskOf(r, m) == SelectSeq([i \in 1..Len(r) |-> [r[i] EXCEPT !.sig = SelectSeq(@, LAMBDA s : Keep(m, s))]], LAMBDA e : e.sig # <<>>)
Results(a) == [all |-> Pick(a, All, 1, 1), range |-> Pick(a, Range, 1, 1), phase |-> Pick(a, Phase, 1, 1), doppler |-> Pick(a, Doppler, 1, 1),
               strength |-> Pick(a, Strength, 1, 1), ok |-> Pick(a, Ok, 1, 1), okrange |-> Pick(a, OkRange, 1, 1), okphase |-> Pick(a, OkPhase, 1, 1),
               tracked |-> Pick(a, Tracked, 1, 1), slip |-> Pick(a, Slip, 1, 1), halfslip |-> Pick(a, HalfSlip, 1, 1),
               good |-> Pick(a, LAMBDA e, s : Good(s), 1, 1),
               goodfrom |-> [k \in 1..9 |-> Pick(a, LAMBDA e, s : GoodFrom(k, s), 1, 1)],
               anomalies |-> SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : a[i].flag # 0),
               clocks |-> SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : a[i].clk # NoClk),
               svs |-> UNION {{a[i].sig[j].sv : j \in 1..Len(a[i].sig)} : i \in 1..Len(a)},
               codes |-> UNION {{a[i].sig[j].code : j \in 1..Len(a[i].sig)} : i \in 1..Len(a)}]

Finish == /\ ~done /\ len # -1 /\ n = len
          /\ \E m \in Some(Masks) :
             Emit([a |-> recs[1], b |-> recs[2], diff |-> Diff(recs[1], recs[2]), q |-> Results(recs[1]), raised |-> Raised(recs[1], 7, -3), mask |-> m, masked |-> MaskOf(recs[1], m)])
          /\ done' = TRUE /\ UNCHANGED <<recs, n, len>>
Next == Start \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Undone == LET d == Diff(recs[1], recs[2]) IN [i \in 1..Len(d) |-> Plus(d[i], recs[2])] = recs[1]
SameShape == LET d == Diff(recs[1], recs[2]) IN
  \A i \in 1..Len(d) : [d[i] EXCEPT !.sig = <<>>] = [recs[1][i] EXCEPT !.sig = <<>>] /\
     \A j \in 1..Len(d[i].sig) : [d[i].sig[j] EXCEPT !.v = 0] = [recs[1][i].sig[j] EXCEPT !.v = 0]
Disjoint == LET q == Results(recs[1]) IN
  /\ SeqSet(q.tracked) \cap SeqSet(q.halfslip) = {}
  /\ SeqSet(q.okphase) = SeqSet(q.phase) \cap SeqSet(q.ok)
  /\ SeqSet(q.okphase) \subseteq SeqSet(q.tracked) \cup SeqSet(q.halfslip)
  /\ SeqSet(q.goodfrom[5]) \subseteq SeqSet(q.good)
  /\ \A k \in 1..8 : SeqSet(q.goodfrom[k + 1]) \subseteq SeqSet(q.goodfrom[k])
  /\ SeqSet(q.good) \cap SeqSet(q.slip) = {}
  /\ SeqSet(q.slip) \subseteq SeqSet(q.halfslip)
  /\ Len(q.all) = Len(q.range) + Len(q.phase) + Len(q.doppler) + Len(q.strength)
Sorted == \A w \in 1..2 : \A i \in 1..(Len(recs[w]) - 1) : Before(Key(recs[w][i]), Key(recs[w][i + 1]))

(* --- exhaustive --- *)
McSig(v) == {[sv |-> s, code |-> c, v |-> v, lli |-> l, ssi |-> 5] : s \in {"G01", "E01"}, c \in {"C1C", "L1C"}, l \in {None, 3}}
McEpoch(rs, w) == {[t |-> t, flag |-> f, clk |-> IF f = 0 THEN NoClk ELSE 7, sig |-> s]
                   : t \in {0, 30}, f \in {0, 1}, s \in {<<>>} \cup {<<x>> : x \in McSig(10 * w)} \cup {<<x, [x EXCEPT !.code = "L2W", !.v = 3, !.lli = 1]>> : x \in McSig(20 * w)}}

(* --- simulation --- *)
Svs == {"G01", "G02", "G31", "E01", "E11", "R05", "C19", "J02", "I03", "S23"}
Codes == {"C1C", "L1C", "D1C", "S1C", "L2W", "C2W", "L5Q", "C5Q", "S5Q", "P1", "L1", "L2", "C1", "D1", "S2"}
RVal(h) == RandomElement(-1000000..1000000) * RandomElement({1, 1, 1000, 7})
RSig(x, h) == CHOOSE z \in {[sv |-> x[1], code |-> x[2], v |-> v, lli |-> l, ssi |-> q]
                            : v \in {RVal(h)}, l \in {RandomElement({None, None} \cup 0..7)}, q \in {RandomElement({None} \cup 1..8)}} : TRUE
RSigs(S, C, k) == CHOOSE z \in {[i \in 1..Len(d) |-> RSig(d[i], i)] : d \in {Draw(S \X C, k)}} : TRUE
(* small pools make the two sets meet *)
SimEpoch(rs, w) ==
  {TLCEval([t |-> t, flag |-> f, clk |-> IF Coin(1, 2, 3) THEN NoClk ELSE RandomElement(-99999..99999), sig |-> s])
   : t \in {CHOOSE z \in {30 * RandomElement(0..k) : k \in {RandomElement({3, 10})}} : TRUE}, f \in {RandomElement({0, 0, 1, 2, 3, 6})},
     s \in {RSigs(IF Coin(2, 1, 2) THEN {"G01", "G02", "E01"} ELSE Svs, IF Coin(3, 1, 2) THEN {"C1C", "L1C", "L2W"} ELSE Codes, RandomElement(0..9))}}
=============================================================================
