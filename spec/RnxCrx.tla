------------------------------- MODULE RnxCrx -------------------------------
(* C03: a coder writes compact epochs and events, a decoder follows line by  *)
(* line.  Lossless says that what the decoder has completed is exactly what  *)
(* was coded, whatever came before.                                          *)
EXTENDS Crinex, Damage

CONSTANTS SomeCfg(_), SomeElem(_, _, _), SomeChoice(_, _, _), MaxElems

VARIABLES cfg, world, elems, enc, lines, want, ends, read, st, len, done
vars == <<cfg, world, elems, enc, lines, want, ends, read, st, len, done>>

Init == /\ cfg = <<>> /\ world = <<>> /\ elems = <<>> /\ enc = Fresh /\ lines = <<>> /\ want = <<>> /\ ends = <<>> /\ read = 0
        /\ st = DIdle /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<world, elems, enc, lines, want, ends, read, st, done>>

Write == /\ len # -1 /\ read = Len(lines) /\ Len(elems) < len
         /\ \E x \in SomeElem(cfg, world, Len(elems)) :      \* [e, world]
              LET e == x.e IN
              \E ch \in SomeChoice(cfg, e, Len(elems)) :
              \E r \in {IF e.k = "epoch" THEN EncEpoch(cfg, enc, e, ch) ELSE EncEvent(cfg, e)} :
              /\ elems' = Append(elems, e)
              /\ world' = x.world
              /\ enc' = r.enc
              /\ lines' = TLCEval(lines \o r.lines)
              /\ want' = IF e.k = "epoch" THEN Append(want, Norm(cfg, e)) ELSE want
              /\ ends' = IF e.k = "epoch" THEN Append(ends, Len(lines')) ELSE ends
         /\ UNCHANGED <<cfg, read, st, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(DStep(cfg, st, lines[read + 1]))
        /\ UNCHANGED <<cfg, world, elems, enc, lines, want, ends, len, done>>

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ Len(elems) = len
          /\ Emit([cfg |-> cfg, lines |-> lines, epochs |-> want, ends |-> ends, damages |-> Plan(ends, Len(lines))])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, world, elems, enc, lines, want, ends, read, st, len>>

Next == Start \/ Write \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
Compliant == st.mode # "lost"
Prompt == Len(st.out) >= Cardinality(Safe(ends, "cut", read))
Lossless == /\ Len(st.out) <= Len(want)
            /\ st.out = SubSeq(want, 1, Len(st.out))
            /\ (len # -1 /\ read = Len(lines)) => (st.out = want /\ st.mode = "epoch")
(* coder and decoder remember the same things between epochs *)
SameMemory == (len # -1 /\ read = Len(lines) /\ enc.has) =>
                 /\ st.mem.ck = enc.ck /\ st.mem.svs = enc.svs /\ st.mem.arcs = enc.arcs /\ st.mem.flags = enc.flags

(* ------------------------------------------------------------ choices ---- *)
(* exhaustive: two GPS satellites, two observables *)
McCfg(h) == {[ver |-> v, head |-> "G", codes |-> [x \in {"G"} |-> IF v = 2 THEN <<"C1", "L1">> ELSE <<"C1C", "L1C">>],
              trim |-> "none", svf |-> "std", zp |-> TRUE, ts |-> "GPS"] : v \in {2, 3}}
McObs == {NoObs, [v |-> "         1.000", lli |-> "1", ssi |-> " "], [v |-> "        -0.250", lli |-> " ", ssi |-> "7"]}
McObs3 == [v |-> "  20000000.123", lli |-> " ", ssi |-> " "]
McSats == {<<>>} \cup {<<[sv |-> <<"G", p>>, obs |-> <<a, b>>]>> : p \in {1, 2}, a \in McObs, b \in {NoObs, McObs3}}
            \cup {<<[sv |-> <<"G", p>>, obs |-> <<a, NoObs>>], [sv |-> <<"G", 3 - p>>, obs |-> <<NoObs, b>>]>>
                     : p \in {1, 2}, a \in McObs, b \in McObs}
McElem(c, w, n) ==
  {[e |-> [k |-> "epoch", y |-> 2020, mo |-> 1, d |-> 1, h |-> 0, mi |-> n, s |-> 30, f |-> "0000000", flag |-> 0,
           clk |-> ck, sats |-> s], world |-> w] : s \in McSats, ck \in {"", "0.000000001"}}
McChoice(c, e, n) == {[init |-> i, ck |-> 0, k |-> [a \in 1..2 |-> [b \in 1..2 |-> k]], mark |-> "&", emark |-> "&", trim |-> TRUE]
                        : i \in BOOLEAN, k \in {0, 1}}

(* exhaustive, one observable, longer: appear, disappear, come back *)
Mc3Cfg(h) == {[c EXCEPT !.codes = [x \in {"G"} |-> <<@["G"][1]>>]] : c \in McCfg(h)}
Mc3Obs == {NoObs, [v |-> "         1.000", lli |-> "1", ssi |-> " "], [v |-> "         3.500", lli |-> " ", ssi |-> "7"]}
Mc3Sats == {<<>>} \cup {<<[sv |-> <<"G", 1>>, obs |-> <<a>>]>> : a \in Mc3Obs}
            \cup {<<[sv |-> <<"G", 2>>, obs |-> <<a>>], [sv |-> <<"G", 1>>, obs |-> <<b>>]>> : a \in Mc3Obs, b \in Mc3Obs}
Mc3Elem(c, w, n) ==
  {[e |-> [k |-> "epoch", y |-> 2020, mo |-> 1, d |-> 1, h |-> 0, mi |-> n, s |-> 30, f |-> "0000000", flag |-> 0,
           clk |-> "", sats |-> s], world |-> w] : s \in Mc3Sats}
Mc3Choice(c, e, n) == {[init |-> i, ck |-> 0, k |-> [a \in 1..2 |-> <<0>>], mark |-> " ", emark |-> "&", trim |-> TRUE]
                         : i \in BOOLEAN}

(* --- simulation --- *)
(* shape 1: many satellites, few observables; 2: few satellites, many observables; 3: both small, long histories *)
CrxCfg(h) ==
  {[c EXCEPT !.codes = TLCEval([l \in DOMAIN @ |-> SubSeq(c.codes[l], 1,
        CASE sh = 1 -> Min2(Len(c.codes[l]), 2) [] sh = 2 -> Len(c.codes[l]) [] OTHER -> Min2(Len(c.codes[l]), 6))]),
     !.trim = "none"]
     @@ [shape |-> sh, pool |-> Draw(AllSv(c), CASE sh = 1 -> RandomElement({11, 12, 13, 14, 23, 24, 25, 30, 36, 37, 40})
                                                 [] sh = 2 -> RandomElement(1..3)
                                                 [] OTHER -> RandomElement(1..6)),
         tstep |-> RandomElement({"min", "sec", "any"}), s0 |-> RandomElement(0..59),
         mark |-> RandomElement({"&", " "}), wtrim |-> RandomElement({TRUE, TRUE, TRUE, FALSE}),
         order |-> RandomElement({0, 0, 3, 1, 2, 4, 5})]
     : c \in SimCfg(h), sh \in {RandomElement({1, 2, 3, 3, 3, 3})}}

RBig(h) == CASE RandomElement(1..4) = 1 -> B(0, RandomElement(-2..9))
             [] RandomElement(1..3) = 1 -> B(RandomElement(-1000..9000), RandomElement(0..999) * 1001)
             [] OTHER -> B(RandomElement(-999..9999) * RandomElement(1..1000), RandomElement(0..999) * RandomElement(0..1000))
RSmall(h) == CASE RandomElement(1..3) = 1 -> B(0, RandomElement(-9..9))
               [] RandomElement(1..2) = 1 -> B(0, RandomElement(-500000..500000))
               [] OTHER -> B(RandomElement(-200..200), RandomElement(0..999) * 1000)
Fits(b) == LET a == BAbs(b) IN a.hi <= (IF a.neg THEN 999998 ELSE 9999998)
(* a value that drifts, jumps, or stays *)
Walk(b) == CHOOSE z \in {IF r <= 6 THEN BNorm(BAdd(b, RSmall(r))) ELSE IF r = 7 THEN BNorm(RBig(r)) ELSE BNorm(b)
                          : r \in {RandomElement(1..9)}} : TRUE
WalkIn(b) == CHOOSE z \in {IF Fits(x) THEN x ELSE B(1, 1) : x \in {Walk(b)}} : TRUE
RFlag(f) == CHOOSE z \in {IF r <= 7 THEN f ELSE RandomElement({" ", "0", "1", "3", "4", "5", "7"}) : r \in {RandomElement(1..10)}} : TRUE

(* the world: what each satellite of the pool would be observed with *)
World0(c) == TLCEval([i \in 1..Len(c.pool) |-> TLCEval([j \in 1..NCodes(c, c.pool[i]) |->
               [b |-> CHOOSE z \in {BNorm(RBig(j))} : TRUE, on |-> Coin(j, 4, 5), lli |-> RInd(j), ssi |-> RSsi(j)]])])
World1(c, w) == TLCEval([i \in 1..Len(w) |-> TLCEval([j \in 1..Len(w[i]) |->
               [b |-> WalkIn(w[i][j].b), on |-> IF Coin(j, 1, 6) THEN ~w[i][j].on ELSE w[i][j].on,
                lli |-> RFlag(w[i][j].lli), ssi |-> RFlag(w[i][j].ssi)]])])
ObsIn(o) == IF o.on THEN [v |-> PadL(BFixed(o.b, 3), 14), lli |-> o.lli, ssi |-> o.ssi] ELSE NoObs
NPresent(c, h) == CASE c.shape = 1 /\ RandomElement(1..2) = 1 -> Len(c.pool)
                    [] RandomElement(1..25) = 1 -> 0
                    [] OTHER -> RandomElement(1..Len(c.pool))
(* mostly ascending order, the same satellites as they come *)
Present(c, h) == CHOOSE z \in {IF Coin(d, 1, 2) THEN d ELSE SortedSeq({d[i] : i \in 1..Len(d)})
                                : d \in {Draw(1..Len(c.pool), NPresent(c, h))}} : TRUE
CClk(c, h) == CHOOSE z \in {IF c.order = 5 THEN r ELSE IF Coin(r, 1, 3) THEN "" ELSE r
                  : r \in {BFixed(BNorm(B(RandomElement(-99..99) * RandomElement(0..9), RandomElement(0..999) * RandomElement(0..1000))), ClkW(c))}} : TRUE
CrxEpoch(c, w, n) ==
  [k |-> "epoch", y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> 3,
   mi |-> IF c.tstep = "sec" THEN 7 ELSE 2 * n,
   s |-> CASE c.tstep = "min" -> c.s0 [] c.tstep = "sec" -> Min2(59, 5 * n) [] OTHER -> RandomElement(0..59),
   f |-> IF c.tstep = "any" THEN RandomElement({"0000000", "5000000", "0000001", "9999999"}) ELSE "0000000",
   flag |-> RandomElement({0, 0, 0, 0, 0, 0, 1}), clk |-> CClk(c, n),
   sats |-> CHOOSE z \in {TLCEval([i \in 1..Len(p) |-> [sv |-> c.pool[p[i]],
                obs |-> TLCEval([j \in 1..Len(w[p[i]]) |-> ObsIn(w[p[i]][j])])]]) : p \in {Present(c, n)}} : TRUE]
CrxEvent(c, n) ==
  [k |-> "event", y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> 3, mi |-> IF c.tstep = "sec" THEN 7 ELSE 2 * n,
   s |-> IF c.tstep = "min" THEN c.s0 ELSE Min2(59, 5 * n), f |-> "0000000",
   dated |-> Coin(n, 1, 2), flag |-> RandomElement(2..5),
   lines |-> RandomElement({<<>>, <<PadR("A 9080", 60) \o "MARKER NAME">>,
      <<PadR("        0.1200        0.0000        0.0000", 60) \o "ANTENNA: DELTA H/E/N", PadR("moved", 60) \o "COMMENT">>})]
CrxElem(c, w, n) ==
  {IF n > 0 /\ ev THEN [e |-> CrxEvent(c, n), world |-> w]
   ELSE CHOOSE z \in {[e |-> CrxEpoch(c, nw, n), world |-> nw] : nw \in {IF w = <<>> THEN World0(c) ELSE World1(c, w)}} : TRUE
   : ev \in {RandomElement(1..12) = 1}}
RK(c) == CHOOSE z \in {IF r = 1 THEN (IF c.order = 0 THEN RandomElement(1..5) ELSE c.order) ELSE 0 : r \in {RandomElement(1..10)}} : TRUE
(* new arcs take the default order of the file; order 0: any *)
K0(c) == IF c.order = 0 THEN RandomElement(1..5) ELSE c.order
NewArc(e, i, j) == enc.svs = <<>> \/ IndexOf(enc.svs, e.sats[i].sv) = 0 \/ enc.arcs[IndexOf(enc.svs, e.sats[i].sv)][j].k = 0
CrxChoice(c, e, n) ==
  IF e.k # "epoch" THEN {<<>>}
  ELSE {[init |-> it, ck |-> RK(c), mark |-> c.mark, emark |-> c.mark, trim |-> c.wtrim,
         k |-> TLCEval([i \in 1..Len(e.sats) |-> TLCEval([j \in 1..Len(e.sats[i].obs) |->
                 IF it \/ NewArc(e, i, j) THEN K0(c) ELSE RK(c)])])]
        : it \in {RandomElement(1..8) = 1}}

(* what a data set can hold: satellites with at least one observation, no events (C04) *)
Full(e) == [e EXCEPT !.sats = SelectSeq(@, LAMBDA s : \E i \in 1..Len(s.obs) : s.obs[i].v # "")]
DataElems(c, w, n) ==
  {CHOOSE z \in {[e |-> [Full(x) EXCEPT !.flag = IF f = 1 THEN 6 ELSE @], world |-> nw]
                  : f \in {RandomElement(1..8)}, x \in {CrxEpoch(c, nw, n)}} : TRUE
   : nw \in {IF w = <<>> THEN World0(c) ELSE World1(c, w)}}
=============================================================================
