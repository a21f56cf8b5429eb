------------------------------- MODULE RnxNav -------------------------------
(* N01: a writer appends messages and comments, a reader follows.             *)
EXTENDS NavText, Damage

CONSTANTS SomeCfg(_), SomeMsg(_, _), MaxMsgs

VARIABLES cfg, n, lines, want, ends, read, st, len, done
vars == <<cfg, n, lines, want, ends, read, st, len, done>>

Init == /\ cfg = <<>> /\ n = 0 /\ lines = <<>> /\ want = <<>> /\ ends = <<>> /\ read = 0 /\ st = Idle /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxMsgs)
         /\ \E c \in SomeCfg(len) : cfg' = c
         /\ UNCHANGED <<n, lines, want, ends, read, st, done>>

(* a message may have a comment in its middle *)
Note == PadR("   1.000000000000D+00 2.000000000000D+00", 60) \o "COMMENT"
With(c, ls) == IF c = 0 \/ c > Len(ls) THEN ls ELSE SubSeq(ls, 1, c - 1) \o <<Note>> \o SubSeq(ls, c, Len(ls))
Write == /\ len # -1 /\ read = Len(lines) /\ n < len
         /\ \E e \in SomeMsg(cfg, n) :
              /\ lines' = TLCEval(lines \o With(e.note, WMsg(cfg, e.m, e.fin)))
              /\ want' = Append(want, Held(cfg, e.m))
              /\ ends' = Append(ends, Len(lines'))
         /\ n' = n + 1
         /\ UNCHANGED <<cfg, read, st, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(cfg, st, lines[read + 1]))
        /\ UNCHANGED <<cfg, n, lines, want, ends, len, done>>

End == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len
       /\ st' = Flush(cfg, st)
       /\ Emit([cfg |-> cfg, lines |-> lines, frames |-> want, ends |-> ends, damages |-> Plan(ends, Len(lines))])
       /\ done' = TRUE
       /\ UNCHANGED <<cfg, n, lines, want, ends, read, len>>

Next == Start \/ Write \/ Read \/ End
Spec == Init /\ [][Next]_vars

(* whatever ends at a line that was read is held: a cut there loses nothing of it *)
Prompt == Len(st.out) + (IF st.cur = <<>> THEN 0 ELSE 1) >= Cardinality(Safe(ends, "cut", read))
Faithful == /\ Len(st.out) <= Len(want) /\ st.out = SubSeq(want, 1, Len(st.out))
            /\ done => st.out = want
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 82

(* the key under which frames are told apart *)
Key(m) == <<m.cls, m.sv, m.msg, m.t>>

(* --- exhaustive: which cells of one line, and of the last one, are blank, zero or not --- *)
McCfg(h) == {[ver |-> 2, minor |-> 11, head |-> "G"], [ver |-> 3, minor |-> 4, head |-> "M"], [ver |-> 4, minor |-> 0, head |-> "M"]}
McCells(k, row, p, z) == [i \in 1..k |-> IF i \div 4 # row \/ i < 4 THEN "1.000000000000E+00"
                                        ELSE IF i % 4 \in p THEN "2.500000000000D-01"
                                        ELSE IF z THEN "0.000000000000E+00" ELSE ""]
McKinds(c) == IF c.ver < 4 THEN {<<"G", "EPH", "LNAV">>}
              ELSE {<<"E", "EPH", "INAV">>, <<"C", "EPH", "CNV1">>}
McMsg(c, i) ==
  {[m |-> [cls |-> k[2], sv |-> <<k[1], 3 + i>>, msg |-> k[3], t |-> <<2021, 1, 1, i, 0, 0, 0>>,
           cells |-> McCells(Len(Names(c, k[2], k[1], k[3])), row, p, z)],
    fin |-> f, note |-> 0]
   : k \in McKinds(c), row \in (IF i = 0 THEN {1, 5, 6, 7} ELSE {6}), p \in (IF i = 0 THEN SUBSET (0..3) ELSE {{0, 2}, {}}),
     z \in (IF i = 0 THEN BOOLEAN ELSE {FALSE}), f \in (IF i = 0 THEN {"trim", "pad", "none"} ELSE {"trim"})}

(* --- simulation --- *)
Dig(h, k) == CHOOSE z \in {Z(a, 4) \o Z(b, 4) \o Z(d, 4) : a \in {RandomElement(0..9999)}, b \in {RandomElement(0..9999)}, d \in {RandomElement(0..9999)}} : TRUE
RFloat(h) == CHOOSE z \in
   {IF r = 1 THEN "0.000000000000" \o x \o "+00"
    ELSE IF r = 2 THEN (IF neg THEN "-" ELSE "") \o "." \o ds \o x \o sg \o Z(e, 2)
    ELSE (IF neg THEN "-" ELSE "") \o ToString(d) \o "." \o ds \o x \o sg \o Z(e, 2)
      : r \in {RandomElement(1..8)}, neg \in {Coin(h, 1, 2)}, d \in {RandomElement(1..9)}, ds \in {Dig(h, 1)},
        x \in {RandomElement({"E", "D", "e", "d", "E", "D"})}, sg \in {RandomElement({"+", "-"})}, e \in {RandomElement({RandomElement(0..21), RandomElement(0..9)})}} : TRUE
PadZ(s, w) == s \o SubSeq("000000000000", 1, w - Len(s))
Sci(v, x) == LET s == ToString(v) IN SubSeq(s, 1, 1) \o "." \o PadZ(From(s, 2), 12) \o x \o "+" \o Z(Len(s) - 1, 2)
RInt(S) == CHOOSE z \in {(IF v < 0 THEN "-" ELSE "") \o Sci(IF v < 0 THEN 0 - v ELSE v, x)
                         : v \in {RandomElement(S)}, x \in {RandomElement({"E", "D", "e", "d"})}} : TRUE
RCell(name, sys) ==
  CASE name = "week" -> RInt(0..4000)
    [] name = "channel" -> RInt((0 - 7)..13)
    [] name = "status" -> RInt(0..511)
    [] name = "health" -> (IF sys = "E" THEN RInt(0..255) ELSE IF sys = "G" THEN RInt(0..63) ELSE RInt(0..8))
    [] name = "almanacHealth" -> RInt(0..7)
    [] name = "region" -> (IF sys = "E" THEN RInt(0..31) ELSE RInt(0..1))
    [] name = "rate" /\ sys = "S" -> RInt(0..604800)
    [] OTHER -> RFloat(name)
Must(cls, i, name) == i <= 3 \/ (cls # "EPH" /\ name # "" /\ name # "region") \/ (cls = "ION" /\ i = 4)
RCells(c, cls, sys, msg, dense) ==
  LET ns == Names(c, cls, sys, msg)
  IN TLCEval([i \in 1..Len(ns) |->
       IF cls = "STO" /\ i <= 3
       THEN (CASE i = 1 -> RandomElement({"GAUT", "GPUT", "GAGP", "BDGA"}) [] i = 2 -> RandomElement({"", "EGNOS", "WAAS"})
               [] OTHER -> RandomElement({"", "UTC(USNO)", "UTCGAL", "UTC(NTSC)"}))
       ELSE IF cls # "EPH" /\ ns[i] = "t_tm" THEN RInt(0..604800)
       ELSE IF ns[i] = "" THEN (IF cls = "EPH" /\ Coin(i, 1, 6) THEN RFloat(i) ELSE "")
       ELSE IF Must(cls, i, ns[i]) \/ Coin(i, dense, 4) THEN RCell(ns[i], sys) ELSE ""])

SimCfg(h) == {IF v = 2 THEN [ver |-> 2, minor |-> RandomElement({10, 11}), head |-> RandomElement({"G", "R"})]
              ELSE IF v = 4 THEN [ver |-> 4, minor |-> 0, head |-> "M"]
              ELSE [ver |-> 3, minor |-> RandomElement({0, 2, 3, 4, 5}), head |-> RandomElement({"M", "M", "G", "R", "E", "C", "J", "S"})]
              : v \in {RandomElement({2, 3, 4})}}
Sys(c) == IF c.head # "M" THEN {c.head} ELSE {"G", "R", "E", "C", "J", "S"}
Prn(sys) == CASE sys = "G" -> 1..32 [] sys = "R" -> 1..27 [] sys = "E" -> 1..36 [] sys = "C" -> 1..63 [] sys = "J" -> 1..9
              [] sys = "S" -> 20..58
SimMsgOf(c, i, s) ==
  {[m |-> [cls |-> k[1], sv |-> <<s, p>>, msg |-> k[2],
           t |-> <<y, RandomElement(1..12), RandomElement(1..28), i, RandomElement(0..59), RandomElement(0..59),
                   IF c.ver = 2 THEN RandomElement({0, 0, 5, 7}) ELSE 0>>,
           cells |-> RCells(c, k[1], s, k[2], dense)],
    fin |-> RandomElement({"trim", "pad", "none"}),
    note |-> note]
   : k \in {IF c.ver = 4 THEN RandomElement(Messages(s)) ELSE <<"EPH", "LNAV">>},
     p \in {RandomElement(Prn(s))}, dense \in {RandomElement({2, 3, 4, 4})},
     y \in {IF c.ver = 2 THEN RandomElement(1980..2079) ELSE RandomElement(1981..2079)},
     note \in {RandomElement({0, 0, 0, 1, 2, 4, 5})}}
SimMsg(c, i) == UNION {SimMsgOf(c, i, s) : s \in {RandomElement(Sys(c))}}
=============================================================================
