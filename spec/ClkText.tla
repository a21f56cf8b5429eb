------------------------------- MODULE ClkText -------------------------------
(* Clock bodies.  A record line holds its type, the name of the clock, the    *)
(* date, the number of values and the first two; the next four stand on a     *)
(* continuation line.  Since 3.04 names take nine columns instead of four.    *)
(* cfg = [old, trim, zp]; rec = [type, name, y, mo, d, h, mi, s, us, vals]    *)
EXTENDS Text

Types == {"AR", "AS", "CR", "DR", "MS"}
NameW(cfg) == IF cfg.old THEN 4 ELSE 9
DateW == 26
HeadW(cfg) == 3 + NameW(cfg) + 1 + DateW + 3 + 3
I3(cfg, n) == IF cfg.zp THEN " " \o Z(n, 2) ELSE I(n, 3)

(* ---------------------------------------------------------- the writer --- *)
WDate(cfg, e) == ToString(e.y) \o Cat([i \in 1..5 |-> I3(cfg, <<e.mo, e.d, e.h, e.mi, e.s>>[i])]) \o "." \o Z(e.us, 6)
WVals(vs) == Cat([i \in 1..Len(vs) |-> PadL(vs[i], 19) \o (IF i = Len(vs) THEN "" ELSE " ")])
WRec(cfg, e) ==
  LET n == Len(e.vals)
      fst == e.type \o " " \o PadR(e.name, NameW(cfg)) \o " " \o WDate(cfg, e) \o I(n, 3) \o Sp(3)
             \o WVals(SubSeq(e.vals, 1, Min2(2, n)))
      full(l) == IF cfg.trim THEN l ELSE PadR(l, IF cfg.old THEN 80 ELSE 85)
  IN TLCEval(<<full(fst)>> \o IF n > 2 THEN <<full(WVals(SubSeq(e.vals, 3, n)))>> ELSE <<>>)

(* ---------------------------------------------------------- the reader --- *)
IsComment(l) == Len(l) > 60 /\ Trim(Cols(l, 61, 90)) = "COMMENT"
IsReal(s) == s # "" /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in Digits \cup {"+", "-", ".", "E", "e"}
DaysIn(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m # 2 THEN 31 ELSE IF y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0) THEN 29 ELSE 28
RRec(cfg, l) ==
  LET a == 4 + NameW(cfg) + 1
      f(i) == Cols(l, a + 4 + 3 * (i - 1), a + 6 + 3 * (i - 1))
      n == Cols(l, a + DateW, a + DateW + 2)
      dateOk == /\ IsInt(Cols(l, a, a + 3)) /\ \A i \in 1..5 : IsInt(f(i)) /\ Cols(f(i), 1, 1) = " "
                /\ Cols(l, a + 19, a + 19) = "." /\ IsInt(Cols(l, a + 20, a + 25))
                /\ ToInt(f(1)) \in 1..12 /\ ToInt(f(2)) \in 1..DaysIn(ToInt(Cols(l, a, a + 3)), ToInt(f(1)))
                /\ ToInt(f(3)) < 24 /\ ToInt(f(4)) < 60 /\ ToInt(f(5)) < 60
      nOk == IsInt(n) /\ ToInt(n) \in 1..6
      cell(i) == Trim(Cols(l, HeadW(cfg) + 1 + 20 * (i - 1), HeadW(cfg) + 19 + 20 * (i - 1)))
  IN IF ~dateOk \/ ~nOk THEN [ok |-> FALSE, n |-> 0, rec |-> <<>>]
     ELSE [ok |-> \A i \in 1..Min2(2, ToInt(n)) : IsReal(cell(i)), n |-> ToInt(n),
           rec |-> [type |-> Cols(l, 1, 2), name |-> Trim(Cols(l, 4, 3 + NameW(cfg))), y |-> ToInt(Cols(l, a, a + 3)),
                    mo |-> ToInt(f(1)), d |-> ToInt(f(2)), h |-> ToInt(f(3)), mi |-> ToInt(f(4)), s |-> ToInt(f(5)),
                    us |-> ToInt(Cols(l, a + 20, a + 25)),
                    vals |-> TLCEval([i \in 1..Min2(2, ToInt(n)) |-> cell(i)])]]

Idle == [out |-> <<>>, cur |-> <<>>, n |-> 0]
Settle(st) == IF st.n = 0 \/ Len(st.cur.vals) < st.n THEN st
              ELSE [out |-> Append(st.out, st.cur), cur |-> <<>>, n |-> 0]
(* a record of which one field is wrong is dropped with its continuation *)
Step(cfg, st, l) ==
  IF IsComment(l) THEN st
  ELSE IF Cols(l, 1, 2) \in Types /\ Cols(l, 3, 3) = " "
  THEN LET r == RRec(cfg, l) IN
       IF r.ok THEN Settle([out |-> st.out, cur |-> r.rec, n |-> r.n]) ELSE [out |-> st.out, cur |-> <<>>, n |-> 0]
  ELSE IF st.n > 2 /\ Len(st.cur.vals) = 2
  THEN LET c == [i \in 1..st.n - 2 |-> Trim(Cols(l, 1 + 20 * (i - 1), 19 + 20 * (i - 1)))] IN
       IF \A i \in 1..st.n - 2 : IsReal(c[i]) THEN Settle([st EXCEPT !.cur.vals = TLCEval(@ \o c)])
       ELSE [out |-> st.out, cur |-> <<>>, n |-> 0]
  ELSE st
=============================================================================
