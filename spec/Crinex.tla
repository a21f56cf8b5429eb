------------------------------- MODULE Crinex -------------------------------
(* Compact RINEX (Hatanaka) observation bodies, revisions 1.0 and 3.0.       *)
(*                                                                           *)
(* Coder: EncEpoch turns an epoch into its lines, given what was sent before *)
(* and the free choices of a coder (initialising more than it must, the      *)
(* order of the arcs, how new blank flags are marked).                       *)
(* Decoder: DStep consumes one line.  It accepts exactly the streams that    *)
(* follow the rules: an epoch line, a clock line, one line per satellite.    *)
(*   - an initialised epoch line forgets everything: arcs, flags, clock      *)
(*   - a satellite that was absent from the previous epoch starts over       *)
(*   - a missing value ends the arc of its signal, a missing clock that of   *)
(*     the clock: the next value must initialise a new one                   *)
EXTENDS ObsGen, Big

NoArc == [k |-> 0, h |-> <<>>]
Fresh == [has |-> FALSE, text |-> "", ck |-> NoArc, svs |-> <<>>, arcs |-> <<>>, flags |-> <<>>]
(* state of satellite i of the previous epoch: arcs[i] and flags[i] *)

ClkW(cfg) == IF V2(cfg) THEN 9 ELSE 12

Blanks(n) == IF n = 0 THEN "" ELSE Sp(n)

(* ------------------------------------------------------ text difference -- *)
(* mark: how a blank beyond the end of the previous text is coded *)
TCode(p, t, mark) ==
  RTrim(Cat([i \in 1..Max2(Len(p), Len(t)) |->
    IF i <= Len(p) /\ i <= Len(t)
    THEN IF SubSeq(p, i, i) = SubSeq(t, i, i) THEN " " ELSE IF SubSeq(t, i, i) = " " THEN "&" ELSE SubSeq(t, i, i)
    ELSE IF i <= Len(t) THEN IF SubSeq(t, i, i) = " " THEN mark ELSE SubSeq(t, i, i)
    ELSE IF SubSeq(p, i, i) = " " THEN " " ELSE "&"]))
TDecode(p, c) ==
  Cat([i \in 1..Max2(Len(p), Len(c)) |->
    IF i > Len(c) THEN SubSeq(p, i, i)
    ELSE CASE SubSeq(c, i, i) = "&" -> " "
           [] SubSeq(c, i, i) = " " -> Char(p, i)
           [] OTHER -> SubSeq(c, i, i)])

(* ------------------------------------------------------------- the coder - *)
(* epoch line without its first character *)
EText(cfg, e) ==
  LET n == Len(e.sats)
      svs == Cat([i \in 1..n |-> WSv(cfg, e.sats[i].sv)])
      head == From(WDate(cfg, e), 2) \o "  " \o ToString(e.flag) \o I(n, 3)
  IN IF V2(cfg) THEN head \o svs ELSE head \o (IF n = 0 THEN "" ELSE Sp(6)) \o svs

EMark(cfg) == IF V2(cfg) THEN "&" ELSE ">"

(* a value of an arc: k > 0 asks for a new arc of that order *)
EncVal(a, v, k) ==
  IF k > 0 \/ a.k = 0
  THEN LET o == IF k > 0 THEN k ELSE 3
       IN [txt |-> ToString(o) \o "&" \o BText(v), arc |-> [k |-> o, h |-> <<v>>]]
  ELSE LET n == Min2(a.k, Len(a.h))
       IN [txt |-> BText(BDiff(n, Append(Tails(a.h, n), v))), arc |-> [a EXCEPT !.h = Tails(Append(@, v), a.k)]]

BVal(o) == BParse(RemoveDot(Trim(o.v)))

IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
NoArcs(n) == [j \in 1..n |-> NoArc]

EncSat(cfg, enc, sat, ks, mark, trim) ==
  LET n == Len(sat.obs)
      i == IndexOf(enc.svs, sat.sv)
      arcs == IF i = 0 THEN NoArcs(n) ELSE enc.arcs[i]
      old == IF i = 0 THEN "" ELSE enc.flags[i]
      flags == Cat([j \in 1..n |-> sat.obs[j].lli \o sat.obs[j].ssi])
      vals == TLCEval([j \in 1..n |-> IF sat.obs[j].v = "" THEN [txt |-> "", arc |-> NoArc]
                                      ELSE EncVal(arcs[j], BVal(sat.obs[j]), ks[j])])
      line == Cat([j \in 1..n |-> vals[j].txt \o " "]) \o TCode(old, flags, mark)
  IN [line |-> IF trim THEN RTrim(line) ELSE line, arcs |-> [j \in 1..n |-> vals[j].arc], flags |-> flags]

(* ch = [init, ck, k: per satellite and observable, mark, trim] *)
EncEpoch(cfg, enc0, e, ch) ==
  LET init == ch.init \/ ~enc0.has
      enc == IF init THEN Fresh ELSE enc0
      t == EText(cfg, e)
      ck == IF e.clk = "" THEN [txt |-> "", arc |-> NoArc] ELSE EncVal(enc.ck, BParse(RemoveDot(Trim(e.clk))), ch.ck)
      sats == TLCEval([i \in 1..Len(e.sats) |-> EncSat(cfg, enc, e.sats[i], ch.k[i], ch.mark, ch.trim)])
  IN [lines |-> TLCEval(<<IF init THEN EMark(cfg) \o t ELSE RTrim(" " \o TCode(enc.text, t, ch.emark)), ck.txt>>
                  \o [i \in 1..Len(sats) |-> sats[i].line]),
      enc |-> TLCEval([has |-> TRUE, text |-> t, ck |-> ck.arc, svs |-> [i \in 1..Len(e.sats) |-> e.sats[i].sv],
               arcs |-> [i \in 1..Len(sats) |-> sats[i].arcs], flags |-> [i \in 1..Len(sats) |-> sats[i].flags]])]

(* events travel as they are; whatever follows starts over *)
EncEvent(cfg, e) ==
  LET ls == WEvent(cfg, e)
  IN [lines |-> <<EMark(cfg) \o From(ls[1], 2)>> \o Tail(ls), enc |-> Fresh]

(* ----------------------------------------------------------- the decoder - *)
DIdle == [mode |-> "epoch", mem |-> Fresh, cur |-> <<>>, svs |-> <<>>, next |-> Fresh, left |-> 0, out |-> <<>>, err |-> ""]
DLost(st, why) == [st EXCEPT !.mode = "lost", !.err = why]

RECURSIVE NextSp(_, _)
NextSp(s, i) == IF i > Len(s) \/ SubSeq(s, i, i) = " " THEN i ELSE NextSp(s, i + 1)
(* n blank terminated fields and what is left *)
RECURSIVE Fields(_, _, _, _)
Fields(s, n, i, acc) ==
  IF n = 0 THEN [f |-> acc, rest |-> From(s, i)]
  ELSE LET j == NextSp(s, i)
       IN Fields(s, n - 1, j + 1, Append(acc, IF i > Len(s) THEN "" ELSE SubSeq(s, i, j - 1)))

(* [ok, arc] after field f of arc a *)
DecVal(a, f) ==
  IF f = "" THEN [ok |-> TRUE, arc |-> NoArc]
  ELSE IF Char(f, 2) = "&"
  THEN IF Char(f, 1) \in {"1", "2", "3", "4", "5"} /\ IsBig(From(f, 3))
       THEN [ok |-> TRUE, arc |-> [k |-> Digit(Char(f, 1)), h |-> <<BParse(From(f, 3))>>]]
       ELSE [ok |-> FALSE, arc |-> NoArc]
  ELSE IF a.k = 0 \/ ~IsBig(f) THEN [ok |-> FALSE, arc |-> NoArc]
  ELSE (* undo the difference: the arc keeps its last samples *)
       LET n == Min2(a.k, Len(a.h))
           d == BParse(f)
           h == Tails(a.h, n)
           low == [m \in 1..n |-> BDiff(m - 1, Tails(h, m))]    \* differences of order 0..n-1 at the last sample
           RECURSIVE Sum(_)
           Sum(m) == IF m = 0 THEN d ELSE BAdd(low[m], Sum(m - 1))
           v == BNorm(Sum(n))
       IN [ok |-> TRUE, arc |-> [a EXCEPT !.h = Tails(Append(@, v), a.k)]]

DHead(cfg, st, l, init) ==
  LET t == IF init THEN From(l, 2) ELSE TDecode(st.mem.text, From(l, 2))
      full == (IF V2(cfg) THEN " " ELSE ">") \o t
      flag == FlagOf(cfg, full)
      n == ToInt(CountCols(cfg, full))
      c == IF V2(cfg) THEN 33 ELSE 42
      svs == TLCEval([i \in 1..n |-> RSv(cfg, Cols(full, c + 3 * (i - 1), c + 3 * i - 1))])
      mem == IF init THEN Fresh ELSE st.mem
  IN IF ~IsHead(cfg, full) THEN DLost(st, "epoch line")
     ELSE IF flag \in 2..5
     THEN IF ~init THEN DLost(st, "event is not initialised")
          ELSE [st EXCEPT !.mode = IF n = 0 THEN "epoch" ELSE "event", !.left = n, !.mem = Fresh]
     ELSE IF \E i \in 1..n : \/ ~IsInt(Cols(full, c + 3 * i - 2, c + 3 * i - 1))
                             \/ svs[i][1] \notin DOMAIN cfg.codes
     THEN DLost(st, "satellites")
     ELSE IF ~IsBlank(From(full, c + 3 * n)) THEN DLost(st, "trailing text")
     ELSE [st EXCEPT !.mode = "clock", !.svs = svs, !.mem = mem,
            !.next = [Fresh EXCEPT !.has = TRUE, !.text = SubSeq(t, 1, Min2(Len(t), c + 3 * n - 2))],
            !.cur = RDate(cfg, full) @@ [k |-> "epoch", flag |-> flag, clk |-> "", sats |-> <<>>]]

DClose(st) == IF Len(st.cur.sats) < Len(st.svs) THEN st
              ELSE [st EXCEPT !.mode = "epoch", !.out = Append(@, st.cur), !.mem = st.next]

DClock(cfg, st, l) ==
  LET r == DecVal(st.mem.ck, RTrim(l))
  IN IF ~r.ok THEN DLost(st, "clock")
     ELSE DClose([st EXCEPT !.mode = "sat", !.next.ck = r.arc,
            !.cur.clk = IF r.arc.k = 0 THEN "" ELSE BFixed(Last(r.arc.h), ClkW(cfg))])

DSat(cfg, st, l) ==
  LET sv == st.svs[Len(st.cur.sats) + 1]
      n == NCodes(cfg, sv)
      i == IndexOf(st.mem.svs, sv)
      arcs == IF i = 0 THEN NoArcs(n) ELSE st.mem.arcs[i]
      fs == TLCEval(Fields(l, n, 1, <<>>))
      vals == TLCEval([j \in 1..n |-> DecVal(arcs[j], fs.f[j])])
      flags == PadR(TDecode(IF i = 0 THEN "" ELSE st.mem.flags[i], fs.rest), 2 * n)
      obs == TLCEval([j \in 1..n |-> [v |-> IF vals[j].arc.k = 0 THEN "" ELSE PadL(BFixed(Last(vals[j].arc.h), 3), 14),
                                      lli |-> Cols(flags, 2 * j - 1, 2 * j - 1), ssi |-> Cols(flags, 2 * j, 2 * j)]])
  IN IF \E j \in 1..n : ~vals[j].ok THEN DLost(st, "value")
     ELSE IF Len(RTrim(flags)) > 2 * n \/ \E j \in 1..2 * n : Char(flags, j) \notin Digits \cup {" "} THEN DLost(st, "flags")
     ELSE DClose([st EXCEPT !.cur.sats = Append(@, [sv |-> sv, obs |-> obs]),
                  !.next.svs = Append(@, sv), !.next.arcs = Append(@, [j \in 1..n |-> vals[j].arc]),
                  !.next.flags = Append(@, SubSeq(flags, 1, 2 * n))])

DStep(cfg, st, l) ==
  CASE st.mode = "lost" -> st
    [] st.mode = "event" -> [st EXCEPT !.left = @ - 1, !.mode = IF st.left = 1 THEN "epoch" ELSE "event"]
    [] st.mode = "epoch" ->
         IF Char(l, 1) = EMark(cfg) THEN DHead(cfg, st, l, TRUE)
         ELSE IF st.mem.has /\ Char(l, 1) = " " THEN DHead(cfg, st, l, FALSE)
         ELSE DLost(st, "not initialised")
    [] st.mode = "clock" -> DClock(cfg, st, l)
    [] st.mode = "sat" -> DSat(cfg, st, l)

(* clock offsets in normal form: a digit before the point *)
NormClk(s, w) == IF s = "" THEN s ELSE BFixed(BParse(RemoveDot(Trim(s))), w)
Norm(cfg, e) == [e EXCEPT !.clk = NormClk(@, ClkW(cfg))]
=============================================================================
