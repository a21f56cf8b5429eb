------------------------------ MODULE ObsText ------------------------------
(* Columns of the RINEX 2, 3 and 4 observation body: what a writer puts on    *)
(* each line (W...) and, independently, a reader that consumes one line at a  *)
(* time (Step).                                                               *)
(*                                                                            *)
(* cfg  = [ver, head, codes: letter -> sequence of observables, trim, svf, zp]*)
(* epoch = [k |-> "epoch", y, mo, d, h, mi, s, f (7 digits), flag, clk,       *)
(*          sats: sequence of [sv: <<letter, prn>>, obs: sequence of          *)
(*                             [v: text of 14 columns | "", lli, ssi]]]       *)
EXTENDS Text

NoObs == [v |-> "", lli |-> " ", ssi |-> " "]
V2(cfg) == cfg.ver < 3

(* ------------------------------------------------------------- writer ---- *)
WObs(o) == IF o.v = "" THEN Sp(16) ELSE o.v \o o.lli \o o.ssi

WSv(cfg, sv) == CASE cfg.svf = "std" -> sv[1] \o Z(sv[2], 2)
                  [] cfg.svf = "blank" -> sv[1] \o I(sv[2], 2)
                  [] cfg.svf = "noletter" -> " " \o Z(sv[2], 2)
                  [] cfg.svf = "noletterblank" -> " " \o I(sv[2], 2)

Two(cfg, n) == IF cfg.zp THEN Z(n, 2) ELSE I(n, 2)

WDate(cfg, e) ==
  IF V2(cfg)
  THEN " " \o Z(e.y % 100, 2) \o " " \o Two(cfg, e.mo) \o " " \o Two(cfg, e.d) \o " " \o Two(cfg, e.h)
       \o " " \o Two(cfg, e.mi) \o " " \o Two(cfg, e.s) \o "." \o e.f
  ELSE "> " \o ToString(e.y) \o " " \o Z(e.mo, 2) \o " " \o Z(e.d, 2) \o " " \o Z(e.h, 2)
       \o " " \o Z(e.mi, 2) \o " " \o Two(cfg, e.s) \o "." \o e.f

Chunk(s, n, i) == SubSeq(s, (i - 1) * n + 1, Min2(i * n, Len(s)))
NChunks(s, n) == (Len(s) + n - 1) \div n

WSvs(cfg, svs) == Cat([i \in 1..Len(svs) |-> WSv(cfg, svs[i])])

WEpochLines(cfg, e) ==
  LET svs == [i \in 1..Len(e.sats) |-> e.sats[i].sv]
      head == WDate(cfg, e) \o "  " \o ToString(e.flag) \o I(Len(svs), 3)
  IN IF V2(cfg)
     THEN LET first == head \o WSvs(cfg, Chunk(svs, 12, 1))
          IN <<IF e.clk = "" THEN first ELSE PadR(first, 68) \o PadL(e.clk, 12)>>
             \o [i \in 1..Max2(0, NChunks(svs, 12) - 1) |-> Sp(32) \o WSvs(cfg, Chunk(svs, 12, i + 1))]
     ELSE <<IF e.clk = "" THEN head ELSE head \o Sp(6) \o PadL(e.clk, 15)>>

(* trimming of observation lines: "none" keeps every column, "line" drops the *)
(* blanks at the end of a line                                                *)
WTrim(cfg, l) == IF cfg.trim = "line" THEN RTrim(l) ELSE l

WSatLines(cfg, sat) ==
  IF V2(cfg)
  THEN TLCEval([i \in 1..NChunks(sat.obs, 5) |->
         WTrim(cfg, Cat([j \in 1..Len(Chunk(sat.obs, 5, i)) |-> WObs(Chunk(sat.obs, 5, i)[j])]))])
  ELSE <<WTrim(cfg, WSv(cfg, sat.sv) \o Cat([j \in 1..Len(sat.obs) |-> WObs(sat.obs[j])]))>>

WEpoch(cfg, e) ==
  TLCEval(WEpochLines(cfg, e) \o FlatSeq([i \in 1..Len(e.sats) |-> WSatLines(cfg, e.sats[i])]))

(* an event: flag 2..5 followed by n lines of its own *)
WEvent(cfg, e) ==
  <<(IF V2(cfg) THEN (IF e.dated THEN WDate(cfg, e) ELSE Sp(26))
     ELSE (IF e.dated THEN WDate(cfg, e) ELSE ">" \o Sp(28)))
    \o "  " \o ToString(e.flag) \o I(Len(e.lines), 3)>> \o e.lines

(* ------------------------------------------------------------- reader ---- *)
(* mode: "idle" between epochs, "svs" while the satellite list continues,     *)
(* "obs" inside an epoch, "skip" inside an event (n lines left), "lost" after *)
(* a line that could not be understood, until the next epoch line             *)
Idle == [mode |-> "idle", n |-> 0, cur |-> <<>>, svs |-> <<>>, obs |-> <<>>, out |-> <<>>, err |-> ""]

IsComment(l) == Len(l) > 60 /\ Trim(From(l, 61)) = "COMMENT"

(* column of the flag *)
FlagCol(cfg) == IF V2(cfg) THEN 29 ELSE 32

WellDated(cfg, l) ==
  IF V2(cfg)
  THEN /\ IsInt(Cols(l, 2, 3)) /\ IsInt(Cols(l, 5, 6)) /\ IsInt(Cols(l, 8, 9)) /\ IsInt(Cols(l, 11, 12))
       /\ IsInt(Cols(l, 14, 15)) /\ IsInt(Cols(l, 17, 18)) /\ Cols(l, 19, 19) = "." /\ IsInt(Cols(l, 20, 26))
       /\ \A c \in {1, 4, 7, 10, 13, 16} : Cols(l, c, c) = " "
  ELSE /\ Cols(l, 1, 2) = "> "
       /\ IsInt(Cols(l, 3, 6)) /\ IsInt(Cols(l, 8, 9)) /\ IsInt(Cols(l, 11, 12)) /\ IsInt(Cols(l, 14, 15))
       /\ IsInt(Cols(l, 17, 18)) /\ IsInt(Cols(l, 20, 21)) /\ Cols(l, 22, 22) = "." /\ IsInt(Cols(l, 23, 29))
       /\ \A c \in {7, 10, 13, 16, 19} : Cols(l, c, c) = " "

Undated(cfg, l) == IF V2(cfg) THEN IsBlank(Cols(l, 1, 26)) ELSE Cols(l, 1, 29) = ">" \o Sp(28)

FlagOf(cfg, l) == LET c == FlagCol(cfg)
                  IN IF Cols(l, c - 2, c - 1) = "  " /\ Cols(l, c, c) \in Digits
                     THEN Digit(Cols(l, c, c)) ELSE 9
CountCols(cfg, l) == Cols(l, FlagCol(cfg) + 1, FlagCol(cfg) + 3)

(* a line that starts an epoch or an event *)
IsHead(cfg, l) == /\ Len(l) >= FlagCol(cfg) + 3
                  /\ FlagOf(cfg, l) \in 0..6
                  /\ IsInt(CountCols(cfg, l))
                  /\ \/ WellDated(cfg, l)
                     \/ Undated(cfg, l) /\ FlagOf(cfg, l) \in 2..5

RDate(cfg, l) ==
  IF V2(cfg)
  THEN LET yy == ToInt(Cols(l, 2, 3))
       IN [y |-> IF yy < 80 THEN 2000 + yy ELSE 1900 + yy, mo |-> ToInt(Cols(l, 5, 6)), d |-> ToInt(Cols(l, 8, 9)),
           h |-> ToInt(Cols(l, 11, 12)), mi |-> ToInt(Cols(l, 14, 15)), s |-> ToInt(Cols(l, 17, 18)),
           f |-> Cols(l, 20, 26)]
  ELSE [y |-> ToInt(Cols(l, 3, 6)), mo |-> ToInt(Cols(l, 8, 9)), d |-> ToInt(Cols(l, 11, 12)),
        h |-> ToInt(Cols(l, 14, 15)), mi |-> ToInt(Cols(l, 17, 18)), s |-> ToInt(Cols(l, 20, 21)),
        f |-> Cols(l, 23, 29)]

RSv(cfg, t) == <<IF Cols(t, 1, 1) = " " THEN cfg.head ELSE Cols(t, 1, 1), ToInt(Cols(t, 2, 3))>>

(* satellites of columns 33.. of a V2 line, n of them *)
RSvs(cfg, l, n) == TLCEval([i \in 1..n |-> RSv(cfg, Cols(l, 33 + 3 * (i - 1), 35 + 3 * (i - 1)))])

RObs(l, a) == LET v == Cols(l, a, a + 13)
              IN IF IsBlank(v) THEN NoObs
                 ELSE [v |-> v, lli |-> Cols(l, a + 14, a + 14), ssi |-> Cols(l, a + 15, a + 15)]

(* a satellite the header announces observables for *)
GoodSv(cfg, sv, t) == sv[1] \in DOMAIN cfg.codes /\ IsInt(Cols(t, 2, 3))
GoodSvs(cfg, l, n) == \A i \in 1..n : LET t == Cols(l, 33 + 3 * (i - 1), 35 + 3 * (i - 1))
                                      IN IsInt(Cols(t, 2, 3)) /\ GoodSv(cfg, RSv(cfg, t), t)

NCodes(cfg, sv) == Len(cfg.codes[sv[1]])

(* the epoch is complete: keep it *)
Close(st) == [st EXCEPT !.mode = "idle", !.out = Append(@, st.cur), !.cur = <<>>, !.svs = <<>>, !.obs = <<>>]
(* every satellite was read? *)
Settle(st) == IF st.mode = "obs" /\ Len(st.cur.sats) = st.n THEN Close(st) ELSE st

Lost(st, why) == [st EXCEPT !.mode = "lost", !.cur = <<>>, !.svs = <<>>, !.obs = <<>>, !.err = why]

Begin(cfg, st, l) ==
  LET flag == FlagOf(cfg, l)
      n == ToInt(CountCols(cfg, l))
      e == RDate(cfg, l) @@ [k |-> "epoch", flag |-> flag, sats |-> <<>>,
             clk |-> IF V2(cfg) THEN Trim(Cols(l, 69, 80)) ELSE Trim(Cols(l, 42, 56))]
  IN IF flag \in 2..5
     THEN [st EXCEPT !.mode = IF n = 0 THEN "idle" ELSE "skip", !.n = n, !.cur = <<>>, !.svs = <<>>, !.obs = <<>>]
     ELSE IF V2(cfg) /\ ~GoodSvs(cfg, l, Min2(n, 12)) THEN Lost(st, "satellites")
     ELSE IF V2(cfg)
     THEN Settle([st EXCEPT !.n = n, !.cur = e, !.svs = RSvs(cfg, l, Min2(n, 12)), !.obs = <<>>,
                     !.mode = IF n > 12 THEN "svs" ELSE "obs"])
     ELSE Settle([st EXCEPT !.n = n, !.cur = e, !.svs = <<>>, !.obs = <<>>, !.mode = "obs"])


StepObs(cfg, st, l) ==
  IF V2(cfg)
  THEN LET sv == st.svs[Len(st.cur.sats) + 1]
           k == NCodes(cfg, sv) - Len(st.obs)
           got == TLCEval(st.obs \o [i \in 1..Min2(k, 5) |-> RObs(l, 16 * (i - 1) + 1)])
       IN IF Len(got) < NCodes(cfg, sv) THEN [st EXCEPT !.obs = got]
          ELSE Settle([st EXCEPT !.obs = <<>>, !.cur.sats = Append(@, [sv |-> sv, obs |-> got])])
  ELSE IF Cols(l, 1, 1) \notin DOMAIN cfg.codes \/ ~IsInt(Cols(l, 2, 3)) THEN Lost(st, "satellite")
  ELSE LET sv == RSv(cfg, Cols(l, 1, 3))
       IN Settle([st EXCEPT !.cur.sats = Append(@, [sv |-> sv,
              obs |-> TLCEval([i \in 1..NCodes(cfg, sv) |-> RObs(l, 4 + 16 * (i - 1))])])])

Step(cfg, st, l) ==
  IF IsComment(l) /\ st.mode # "skip" THEN st      \* comments of an event are counted
  ELSE CASE st.mode = "skip" -> [st EXCEPT !.n = @ - 1, !.mode = IF st.n = 1 THEN "idle" ELSE "skip"]
         [] st.mode = "idle" -> IF IsBlank(l) THEN st
                                ELSE IF IsHead(cfg, l) THEN Begin(cfg, st, l)
                                ELSE Lost(st, "epoch line")
         [] st.mode = "lost" -> IF IsHead(cfg, l) THEN Begin(cfg, st, l) ELSE st
         [] st.mode = "svs" ->
              IF IsHead(cfg, l) THEN Begin(cfg, st, l)
              ELSE IF ~GoodSvs(cfg, l, Min2(st.n - Len(st.svs), 12)) THEN Lost(st, "satellites")
              ELSE LET svs == st.svs \o RSvs(cfg, l, Min2(st.n - Len(st.svs), 12))
                   IN [st EXCEPT !.svs = svs, !.mode = IF Len(svs) = st.n THEN "obs" ELSE "svs"]
         [] st.mode = "obs" ->
              IF IsHead(cfg, l) THEN Begin(cfg, st, l) ELSE StepObs(cfg, st, l)

RECURSIVE ReadAll(_, _, _)
ReadAll(cfg, st, ls) == IF ls = <<>> THEN st ELSE ReadAll(cfg, Step(cfg, st, Head(ls)), Tail(ls))
=============================================================================
