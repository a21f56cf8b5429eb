------------------------------- MODULE RnxObs -------------------------------
(* Observation files (O01, R01, O02): a writer appends epochs, events,        *)
(* comments, blank lines and damaged epochs to the body; a reader follows,    *)
(* line by line.  Faithful says that what the reader has completed is what    *)
(* the writer meant.  Behaviours are replayed as whole files into the real    *)
(* parser, and cut after every line.                                          *)
EXTENDS ObsGen

CONSTANTS SomeCfg(_), SomeElem(_, _, _), MaxElems, LineTotal

VARIABLES cfg, elems, lines, want, read, st, ends, len, done
vars == <<cfg, elems, lines, want, read, st, ends, len, done>>

Init == /\ cfg = <<>> /\ elems = <<>> /\ lines = <<>> /\ want = <<>> /\ read = 0
        /\ st = Idle /\ ends = <<>> /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<elems, lines, want, read, st, ends, done>>

(* damage done to an epoch on its way to the file *)
Damage(c, ls, how) ==
  LET h == ls[1]
      put(a, s) == SubSeq(h, 1, a - 1) \o s \o From(h, a + Len(s))
      f == FlagCol(c)
  IN CASE how = "date"  -> <<put(IF V2(c) THEN 5 ELSE 8, "XX")>> \o Tail(ls)
       [] how = "flag"  -> <<put(f, "9")>> \o Tail(ls)
       [] how = "count" -> <<put(f + 1, " Z1")>> \o Tail(ls)
       [] how = "short" -> <<SubSeq(h, 1, 12)>> \o Tail(ls)
       [] how = "head"  -> <<SubSeq(h, 1, f)>> \o Tail(ls)
       [] how = "lost"  -> SubSeq(ls, 1, Len(ls) - 1)

Render(c, e) == CASE e.k = "epoch" -> WEpoch(c, e)
                  [] e.k = "event" -> WEvent(c, e)
                  [] e.k = "lines" -> e.lines
                  [] e.k = "damaged" -> Damage(c, WEpoch(c, e.e), e.how)

(* an epoch as the reader is expected to report it *)
Meant(e) == [e EXCEPT !.clk = Trim(@)]

Write == /\ len # -1 /\ read = Len(lines) /\ Len(elems) < len /\ Len(lines) < LineTotal
         /\ \E e \in SomeElem(cfg, elems, lines) :
              /\ elems' = Append(elems, e)
              /\ lines' = TLCEval(lines \o Render(cfg, e))
              /\ want' = IF e.k = "epoch" THEN Append(want, Meant(e)) ELSE want
         /\ UNCHANGED <<cfg, read, st, ends, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(cfg, st, lines[read + 1]))
        /\ ends' = IF Len(st'.out) > Len(st.out) THEN Append(ends, read + 1) ELSE ends
        /\ UNCHANGED <<cfg, elems, lines, want, len, done>>

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ (Len(elems) = len \/ Len(lines) >= LineTotal)
          /\ Emit([cfg |-> cfg, lines |-> lines, epochs |-> want, ends |-> ends,
                   damaged |-> [i \in {j \in 1..Len(elems) : elems[j].k = "damaged"} |->
                                  <<elems[i].how, elems[i].e>>]])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, elems, lines, want, read, st, ends, len>>

Next == Start \/ Write \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
(* R01 and O01: nothing lost, merged, moved or invented at any time *)
Faithful == /\ Len(st.out) <= Len(want)
            /\ st.out = SubSeq(want, 1, Len(st.out))
            /\ (len # -1 /\ read = Len(lines)) => st.out = want
(* an epoch is complete no later than its own last line *)
Prompt == Len(ends) = Len(st.out) /\ \A i \in 1..Len(ends) : ends[i] <= read

(* ------------------------------------------------------------ choices ---- *)
McVals == {NoObs, [v |-> "  20000000.123", lli |-> "1", ssi |-> " "], [v |-> "       -17.500", lli |-> " ", ssi |-> "7"]}
McCfg(h) ==
  {[ver |-> v, head |-> "G", codes |-> [x \in {"G"} |-> IF v = 2 THEN cs[1] ELSE cs[2]], trim |-> "none", svf |-> "std", zp |-> TRUE] :
     v \in {2, 3}, cs \in {<< <<"C1", "L1">>, <<"C1C", "L1C">> >>,
                         << <<"C1", "L1", "L2", "P2", "S1", "S2">>, <<"C1C", "L1C", "C2W", "L2W", "S1C", "S2W">> >>}}
McEpoch(c, n, i, o) == [k |-> "epoch", y |-> 2020, mo |-> 1, d |-> 1, h |-> 0, mi |-> i, s |-> 30, f |-> "0000000",
   flag |-> 0, clk |-> "", sats |-> [j \in 1..n |-> [sv |-> <<"G", j>>, obs |-> o[j]]]]
(* the exhaustive domain varies the first and the last observables, and what surrounds epochs *)
McObs(c) == {[i \in 1..Len(c.codes["G"]) |-> IF i = 1 THEN a ELSE IF i = Len(c.codes["G"]) THEN b ELSE NoObs] :
               a \in McVals, b \in McVals}
McElem(c, es, ls) ==
  LET i == Len(es) IN
  {McEpoch(c, 1, i, <<o>>) : o \in McObs(c)}
    \cup {McEpoch(c, 2, i, <<o, p>>) : o \in McObs(c), p \in McObs(c)}
    \cup {[k |-> "lines", lines |-> <<l>>] : l \in {"", PadR("note", 60) \o "COMMENT"}}
    \cup {[k |-> "event", y |-> 2020, mo |-> 1, d |-> 1, h |-> 0, mi |-> i, s |-> 30, f |-> "0000000",
           dated |-> b, flag |-> 4, lines |-> <<PadR("A", 60) \o "MARKER NAME">>] : b \in BOOLEAN}
    \cup {[k |-> "damaged", how |-> w, e |-> McEpoch(c, 1, i, [j \in {1} |-> [m \in 1..Len(c.codes["G"]) |-> NoObs]])]
            : w \in {"date", "flag", "count", "short", "head"}}

(* --- simulation: full-size files (ObsGen) --- *)
Noise(h) == RandomElement({<<"">>, <<"", "">>, <<PadR("  a comment in the body  ", 60) \o "COMMENT">>,
                           <<PadR("one", 60) \o "COMMENT", PadR("> 2020 01 01 00 00  0.0000000  0  1", 60) \o "COMMENT">>})
EventLines(h) == RandomElement({<<>>, <<PadR("A 9080", 60) \o "MARKER NAME">>,
      <<PadR("        0.1200        0.0000        0.0000", 60) \o "ANTENNA: DELTA H/E/N", PadR("moved", 60) \o "MARKER NUMBER">>})
SimElem(c, es, ls) ==
  {CASE \/ r <= 14
        (* what comes after a lost line must not be able to stand for it *)
        \/ es # <<>> /\ es[Len(es)].k = "damaged" /\ es[Len(es)].how = "lost" -> REpoch(c, Len(es))
     [] r = 15 -> [k |-> "lines", lines |-> Noise(es)]
     [] r \in {16, 17} -> [k |-> "event", y |-> c.y, mo |-> c.mo, d |-> c.d, h |-> (Len(es) * c.step) % 24, mi |-> Len(es) % 60,
             s |-> 59, f |-> "0000000", dated |-> Coin(es, 1, 2), flag |-> RandomElement(2..5), lines |-> EventLines(es)]
     [] OTHER -> [k |-> "damaged", how |-> RandomElement({"date", "flag", "count", "short", "head", "lost"}),
                  e |-> REpoch(c, Len(es))]
   : r \in {RandomElement(1..20)}}
(* without surroundings: O01 *)
CleanElem(c, es, ls) == {REpoch(c, n) : n \in {Len(es)}}
(* what a data set can hold: satellites with at least one observation (O02) *)
Full(e) == [e EXCEPT !.sats = SelectSeq(@, LAMBDA s : \E i \in 1..Len(s.obs) : s.obs[i].v # "")]
DataElem(c, es, ls) == {Full(REpoch(c, n)) : n \in {Len(es)}}
DataCfg(h) == {[c EXCEPT !.svf = "std", !.trim = "none"] : c \in SimCfg(h)}
=============================================================================
