------------------------------- MODULE MetText -------------------------------
(* Meteorological bodies: a date and up to eight values on the first line of  *)
(* an epoch, up to ten values on each continuation line.                      *)
(* cfg = [ver, codes, zp, trim]; epoch = [y, mo, d, h, mi, s, vals]           *)
EXTENDS Text

NFirst == 8
NCont == 10
I2(cfg, n) == IF cfg.zp THEN Z(n, 2) ELSE I(n, 2)
YearW(cfg) == IF cfg.ver < 3 THEN 2 ELSE 4
HeadW(cfg) == 1 + YearW(cfg) + 15

(* ---------------------------------------------------------- the writer --- *)
WDate(cfg, e) == " " \o (IF cfg.ver < 3 THEN Z(e.y % 100, 2) ELSE ToString(e.y))
                 \o Cat([i \in 1..5 |-> " " \o I2(cfg, <<e.mo, e.d, e.h, e.mi, e.s>>[i])])
Cell(v) == PadL(v, 7)
Row(vals, a, b) == Cat([i \in 1..Max2(0, Min2(b, Len(vals)) - a + 1) |-> Cell(vals[a + i - 1])])
NLines(n) == 1 + (IF n <= NFirst THEN 0 ELSE (n - NFirst + NCont - 1) \div NCont)
WEpoch(cfg, e) ==
  LET n == Len(e.vals)
      l(i) == IF i = 1 THEN WDate(cfg, e) \o Row(e.vals, 1, NFirst)
              ELSE Sp(4) \o Row(e.vals, NFirst + NCont * (i - 2) + 1, NFirst + NCont * (i - 1))
  IN TLCEval([i \in 1..NLines(n) |-> IF cfg.trim THEN RTrim(l(i)) ELSE l(i)])

(* ---------------------------------------------------------- the reader --- *)
IsComment(l) == Len(l) > 60 /\ Trim(From(l, 61)) = "COMMENT"
RField(cfg, l, i) == Cols(l, YearW(cfg) + 2 + 3 * (i - 1), YearW(cfg) + 4 + 3 * (i - 1))
IsDate(cfg, l) == /\ Cols(l, 1, 1) = " "
                  /\ IsInt(Cols(l, 2, 1 + YearW(cfg)))
                  /\ \A i \in 1..5 : IsInt(RField(cfg, l, i)) /\ Cols(RField(cfg, l, i), 1, 1) = " "
RDate(cfg, l) ==
  LET yy == ToInt(Cols(l, 2, 1 + YearW(cfg)))
      f(i) == ToInt(RField(cfg, l, i))
  IN [y |-> IF cfg.ver > 2 THEN yy ELSE IF yy < 80 THEN 2000 + yy ELSE 1900 + yy,
      mo |-> f(1), d |-> f(2), h |-> f(3), mi |-> f(4), s |-> f(5), vals |-> <<>>]
RCells(l, a, n) == [i \in 1..n |-> Trim(Cols(l, a + 7 * (i - 1), a + 6 + 7 * (i - 1)))]

Idle == [mode |-> "idle", cur |-> <<>>, out |-> <<>>, err |-> ""]
Settle(cfg, st) == IF Len(st.cur.vals) < Len(cfg.codes) THEN st
                   ELSE [st EXCEPT !.mode = "idle", !.out = Append(@, st.cur), !.cur = <<>>]
Step(cfg, st, l) ==
  IF IsComment(l) THEN st
  ELSE IF st.mode = "lost" THEN st
  ELSE IF st.mode = "idle"
  THEN IF IsBlank(l) THEN st
       ELSE IF ~IsDate(cfg, l) THEN [st EXCEPT !.mode = "lost", !.err = "date"]
       ELSE IF Len(RTrim(l)) > HeadW(cfg) + 7 * Min2(NFirst, Len(cfg.codes)) THEN [st EXCEPT !.mode = "lost", !.err = "too long"]
       ELSE Settle(cfg, [st EXCEPT !.mode = "row",
              !.cur = [RDate(cfg, l) EXCEPT !.vals = TLCEval(RCells(l, HeadW(cfg) + 1, Min2(NFirst, Len(cfg.codes))))]])
  ELSE IF ~IsBlank(Cols(l, 1, 4)) THEN [st EXCEPT !.mode = "lost", !.err = "continuation"]
  ELSE Settle(cfg, [st EXCEPT !.cur.vals = TLCEval(@ \o RCells(l, 5, Min2(NCont, Len(cfg.codes) - Len(@))))])
=============================================================================
