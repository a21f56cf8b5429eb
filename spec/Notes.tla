------------------------------- MODULE Notes --------------------------------
(* R03: comments of a file body.  A writer puts down entries (epochs, weather *)
(* readings, navigation messages, clock records, TEC maps) line by line and   *)
(* comments anywhere, a reader follows: a comment belongs to the entry it     *)
(* follows the first line of; those in front of the first entry belong to it. *)
(* Entries of one epoch share their comments.                                 *)
EXTENDS Text

CONSTANTS SomeKind(_), SomeHour(_, _), SomeNote(_, _), MaxEntries, MaxNotes

VARIABLES kind, len, hours, at, items, st, phase
vars == <<kind, len, hours, at, items, st, phase>>

Kinds == {"O2", "O3", "M2", "M4", "N2", "N3", "N3R", "N4", "C2", "C3", "I", "D"}

(* ---------------------------------------------------------- the writer --- *)
H2(h) == I(h, 3)
Z2(h) == " " \o Z(h, 2)
Row == "    " \o " 0.123456789000D+00 0.223456789000D+01 0.323456789000D-02 0.423456789000D+00"
Row2 == "   " \o " 0.123456789000D+00 0.223456789000D+01 0.323456789000D-02 0.423456789000D+00"
Clk3 == " 0.123456789000D+00 0.223456789000D+01 0.323456789000D-02"
(* the lines of the k-th entry, at hour h *)
Entry(kd, k, h) ==
  CASE kd = "O2" -> <<" 21  3  7" \o H2(h) \o "  0  0.0000000  0  2G01G02", "  20000000.123 7", "  20000001.456 8">>
    [] kd = "O3" -> <<"> 2021 03 07" \o Z2(h) \o " 00  0.0000000  0  2", "G01  20000000.123 7", "G02  20000001.456 8">>
    [] kd = "M2" -> <<" 21  3  7" \o H2(h) \o "  0  0 1000.1   10.2   50.3    1.1    2.2    3.3    4.4    5.5", Sp(4) \o "    6.6    7.7">>
    [] kd = "M4" -> <<" 2021  3  7" \o H2(h) \o "  0  0 1000.1   10.2   50.3    1.1    2.2    3.3    4.4    5.5", Sp(4) \o "    6.6    7.7">>
    [] kd = "N2" -> <<I(k, 2) \o " 21  3  7" \o H2(h) \o "  0  0.0" \o Clk3>> \o [i \in 1..7 |-> Row2]
    [] kd = "N3" -> <<"G" \o Z(k, 2) \o " 2021 03 07" \o Z2(h) \o " 00 00" \o Clk3>> \o [i \in 1..7 |-> Row]
    [] kd = "N3R" -> <<"R" \o Z(k, 2) \o " 2021 03 07" \o Z2(h) \o " 00 00" \o Clk3>> \o [i \in 1..3 |-> Row]
    [] kd = "N4" -> <<"> EPH G" \o Z(k, 2) \o " LNAV", "G" \o Z(k, 2) \o " 2021 03 07" \o Z2(h) \o " 00 00" \o Clk3>> \o [i \in 1..7 |-> Row]
    [] kd = "C2" -> <<"AS G" \o Z(k, 2) \o "  2021 03 07" \o Z2(h) \o " 00  0.000000" \o I(4, 3) \o Sp(3) \o "-0.123456789012E+00 -0.123456789012E+01",
                      "-0.123456789012E+02 -0.123456789012E+03">>
    [] kd = "C3" -> <<"AS " \o PadR("G" \o Z(k, 2), 10) \o "2021 03 07" \o Z2(h) \o " 00  0.000000" \o I(1, 3) \o Sp(3) \o "-0.123456789012E+00">>
    [] kd = "D" -> <<"> 2021 03 07" \o Z2(h) \o " 00  0.000000000  0  2       -4.326631626 0", "D01   -677713.668     -133531.158  -139623093.08413-139623340.44813      -128.150 7",
                     "         -121.850 7", "D02   -677713.668     -133531.158  -139623093.08413-139623340.44813      -128.150 7", "         -121.850 7">>
    [] OTHER -> <<PadR(I(k, 6), 60) \o "START OF TEC MAP", PadR("  2021     3     7" \o I(h, 6) \o "     0     0", 60) \o "EPOCH OF CURRENT MAP",
                  PadR("    10.0   0.0  10.0  10.0 450.0", 60) \o "LAT/LON1/LON2/DLON/H", "   11   22",
                  PadR("     0.0   0.0  10.0  10.0 450.0", 60) \o "LAT/LON1/LON2/DLON/H", "   33   44",
                  PadR(I(k, 6), 60) \o "END OF TEC MAP">>
NoteLine(t) == PadR(t, IF kind = "C3" THEN 65 ELSE 60) \o "COMMENT"

Init == /\ kind = "" /\ len = -1 /\ hours = <<>> /\ at = 0 /\ items = <<>> /\ phase = "start"
        /\ st = [t |-> -1, wait |-> <<>>, by |-> [h \in 0..23 |-> <<>>]]
Cur == Len(hours)
Total == IF Cur = 0 THEN 0 ELSE Len(Entry(kind, Cur, hours[Cur]))
Noted == Cardinality({i \in 1..Len(items) : items[i].k = "note"})

Start == /\ phase = "start"
         /\ kind' \in SomeKind(0) /\ len' \in Some(1..MaxEntries)
         /\ phase' = "body" /\ UNCHANGED <<hours, at, items, st>>
(* the first line of an entry: what waited since the previous one is settled *)
Settle(s, h) == IF s.t = -1 THEN [s EXCEPT !.t = h]
                ELSE [t |-> h, wait |-> <<>>, by |-> [s.by EXCEPT ![s.t] = @ \o s.wait]]
Begin == /\ phase = "body" /\ at = Total /\ Cur < len
         /\ \E h \in SomeHour(Cur, IF Cur = 0 THEN 0 ELSE hours[Cur]) :
              /\ hours' = Append(hours, h)
              /\ items' = Append(items, [k |-> "line", e |-> Cur + 1, s |-> Entry(kind, Cur + 1, h)[1]])
              /\ st' = TLCEval(Settle(st, h))
         /\ at' = 1 /\ UNCHANGED <<kind, len, phase>>
More == /\ phase = "body" /\ at < Total
        /\ items' = Append(items, [k |-> "line", e |-> Cur, s |-> Entry(kind, Cur, hours[Cur])[at + 1]])
        /\ at' = at + 1 /\ UNCHANGED <<kind, len, hours, st, phase>>
Note == /\ phase = "body" /\ Noted < MaxNotes
        /\ \E t \in SomeNote(Noted, Noted) :
             /\ items' = Append(items, [k |-> "note", e |-> Cur, s |-> t])
             /\ st' = [st EXCEPT !.wait = Append(@, t)]
        /\ UNCHANGED <<kind, len, hours, at, phase>>
Finish == /\ phase = "body" /\ at = Total /\ Cur = len
          /\ st' = TLCEval(Settle(st, st.t))
          /\ phase' = "end" /\ UNCHANGED <<kind, len, hours, at, items>>
Lines == [i \in 1..Len(items) |-> IF items[i].k = "note" THEN NoteLine(items[i].s) ELSE items[i].s]
Report == /\ phase = "end"
          /\ Emit([kind |-> kind, hours |-> hours, lines |-> Lines, by |-> {<<h, st.by[h]>> : h \in {h \in 0..23 : st.by[h] # <<>>}}])
          /\ phase' = "done" /\ UNCHANGED <<kind, len, hours, at, items, st>>
Next == Start \/ Begin \/ More \/ Note \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

(* what each comment belongs to, said without a reader *)
Home(i) == LET e == items[i].e IN hours[IF e = 0 THEN 1 ELSE e]
NotesOf(h) == SelectSeq(TLCEval([i \in 1..Len(items) |-> IF items[i].k = "note" /\ Home(i) = h THEN <<items[i].s>> ELSE <<>>]), LAMBDA x : x # <<>>)
Faithful == phase \in {"end", "done"} => \A h \in 0..23 : st.by[h] = TLCEval([i \in 1..Len(NotesOf(h)) |-> NotesOf(h)[i][1]])
(* nothing is settled twice or forgotten *)
RECURSIVE Total24(_)
Total24(h) == IF h < 0 THEN 0 ELSE Len(st.by[h]) + Total24(h - 1)
Conserved == Total24(23) + Len(st.wait) = Noted

(* --- exhaustive --- *)
McKind(h) == Kinds
Shared == kind \in {"N2", "N3", "N3R", "N4", "C2", "C3"}
McHour(n, prev) == IF n = 0 THEN {5} ELSE IF Shared THEN {prev, prev + 2} ELSE {prev + 2}
McNote(n, k) == {<<"  first", "second">>[n + 1]}

(* --- simulation --- *)
SimKind(h) == {RandomElement(Kinds)}
SimHour(n, prev) == {IF n = 0 THEN RandomElement(0..3) ELSE IF Shared THEN prev + RandomElement(0..2) ELSE prev + RandomElement(1..2)}
SimNote(n, k) == {RandomElement({"", " ", "x", "  leading blanks", "END OF FILE", "END OF HEADER", "COMMENT", "> 2021 03 07 12 00  0.0000000  0  2", " 21  3  7 12  0  0.0000000  0  2G01G02",
  "G01 2021 03 07 12 00 00 0.1D+00", "AS G01  2021 03 07 12 00  0.000000  1   -0.1E+00", "     1   START OF TEC MAP", "EXPONENT", "EPOCH OF CURRENT MAP",
  "a comment that takes nearly sixty columns, up to the label.", "tab\tinside", "# / TYPES OF OBSERV"}) \o RandomElement({"", "", ToString(n)})}
=============================================================================
