-------------------------------- MODULE Store --------------------------------
(* W01: the life of a data set in memory and on disk.  It is compressed,      *)
(* restored, edited, renamed, given another record, saved under some name     *)
(* (gzip or not) and loaded back, in any order.  What it holds changes when   *)
(* its owner changes it, and only then.                                       *)
(* epoch = [t, flag, sig], sig = [sv, code, v in thousandths, lli, ssi]       *)
EXTENDS Text

CONSTANTS SomeSet(_), SomeRecord(_, _), MaxOps, Slots

VARIABLES kind, ver, mem, disk, authored, log, len, done
vars == <<kind, ver, mem, disk, authored, log, len, done>>
None == 9
Nothing == [rec |-> <<>>, form |-> "none", name |-> "", prog |-> "", made |-> 0]

(* mem: the data set at hand = [rec, form, name (of the marker), prog, made]  *)
(* made: the slot whose name describes its production, 0 when unknown         *)
Compact == IF kind # "obs" THEN "plain" ELSE IF ver = 2 THEN "compact1" ELSE "compact3"

Init == kind = "" /\ ver = 0 /\ mem = Nothing /\ disk = [s \in Slots |-> Nothing] /\ authored = {} /\ log = <<>> /\ len = -1 /\ done = FALSE
Start == /\ len = -1
         /\ \E x \in SomeSet(0) :
              /\ kind' = x.kind /\ ver' = x.ver
              /\ mem' = [rec |-> x.rec, form |-> "plain", name |-> x.name, prog |-> "spec", made |-> 0]
              /\ authored' = {x.rec}
         /\ log' = <<[op |-> "new", arg |-> "", after |-> mem']>>
         /\ len' \in Some(1..MaxOps) /\ UNCHANGED <<disk, done>>

Busy == len # -1 /\ Len(log) <= len
Did(op, arg) == log' = Append(log, [op |-> op, arg |-> arg, after |-> mem'])
Same == UNCHANGED <<kind, ver, len, done>>

Compress == \E how \in Some({"copy", "mut"}) :
              /\ Busy /\ mem' = [mem EXCEPT !.form = Compact]
              /\ Did("compress", how) /\ UNCHANGED <<disk, authored>> /\ Same
Restore == \E how \in Some({"copy", "mut"}) :
              /\ Busy /\ mem' = IF mem.form = "plain" THEN mem ELSE [mem EXCEPT !.form = "plain", !.prog = "tool"]
              /\ Did("restore", how) /\ UNCHANGED <<disk, authored>> /\ Same
Raised(r) == [i \in 1..Len(r) |-> [r[i] EXCEPT !.sig = [j \in 1..Len(@) |-> [@[j] EXCEPT !.v = @ + (IF kind = "meteo" THEN 100 ELSE 7)]]]]
Edit == /\ Busy /\ mem' = TLCEval([mem EXCEPT !.rec = Raised(@)])
        /\ authored' = authored \cup {mem'.rec}
        /\ Did("edit", "") /\ UNCHANGED disk /\ Same
Put == \E how \in Some({"copy", "mut"}) : \E r \in SomeRecord(kind, ver) :
         /\ Busy /\ mem' = [mem EXCEPT !.rec = r] /\ authored' = authored \cup {r}
         /\ Did("put", how) /\ UNCHANGED disk /\ Same
Rename == \E how \in Some({"copy", "mut"}) : \E nm \in Some({"ALPHA", "BETA"}) :
         /\ Busy /\ kind = "obs" /\ mem' = [mem EXCEPT !.name = nm]
         /\ Did("rename", how) /\ UNCHANGED <<disk, authored>> /\ Same
Save == \E s \in Some(Slots) :
         /\ Busy /\ disk' = [disk EXCEPT ![s] = mem] /\ mem' = mem
         /\ Did("save", s) /\ UNCHANGED authored /\ Same
Load == \E s \in Some({s \in Slots : disk[s] # Nothing}) :
         /\ Busy /\ mem' = [disk[s] EXCEPT !.made = s]
         /\ Did("load", s) /\ UNCHANGED <<disk, authored>> /\ Same
Finish == /\ ~done /\ len # -1 /\ Len(log) = len + 1
          /\ Emit([kind |-> kind, ver |-> ver, log |-> log])
          /\ done' = TRUE /\ UNCHANGED <<kind, ver, mem, disk, authored, log, len>>
Next == Start \/ Compress \/ Restore \/ Edit \/ Put \/ Rename \/ Save \/ Load \/ Finish
Spec == Init /\ [][Next]_vars

(* nothing is held, in memory or on disk, that was not put there *)
Kept == len # -1 => /\ mem.rec \in authored
                    /\ \A s \in Slots : disk[s] # Nothing => disk[s].rec \in authored
Formed == len # -1 => /\ mem.form \in {"plain", Compact}
                      /\ \A s \in Slots : disk[s] # Nothing => disk[s].form \in {"plain", Compact}
(* the last thing said about a slot is what it holds *)
LastSave(s) == LET Hits == {i \in 1..Len(log) : log[i].op = "save" /\ log[i].arg = s} IN IF Hits = {} THEN Nothing ELSE log[SetMax(Hits)].after
Stored == \A s \in Slots : disk[s] = LastSave(s)
Untouched == [][\/ ~Busy
                \/ log' = log
                \/ log'[Len(log')].op \in {"edit", "put", "load"}
                \/ mem'.rec = mem.rec]_vars
OnlySaves == [][log' # log /\ log'[Len(log')].op # "save" => disk' = disk]_vars

(* --- records --- *)

(* --- exhaustive --- *)
S1(x, v) == [sv |-> "G01", code |-> IF x = 2 THEN "C1" ELSE "C1C", v |-> v, lli |-> None, ssi |-> None]
S2(x, v) == [sv |-> "E05", code |-> IF x = 2 THEN "L1" ELSE "L1C", v |-> v, lli |-> 1, ssi |-> 7]
M(v) == [sv |-> "", code |-> "TD", v |-> 100 * v, lli |-> None, ssi |-> None]
R1(k, x) == IF k = "meteo" THEN <<[t |-> 30, flag |-> 0, sig |-> <<M(2)>>]>>
            ELSE <<[t |-> 0, flag |-> 0, sig |-> <<S1(x, 20000000), S2(x, -5)>>], [t |-> 30, flag |-> 1, sig |-> <<S1(x, 20000001)>>]>>
R2(k, x) == IF k = "meteo" THEN <<[t |-> 60, flag |-> 0, sig |-> <<M(1)>>]>> ELSE <<[t |-> 60, flag |-> 0, sig |-> <<S2(x, 123456)>>]>>
McSet(h) == {[kind |-> k[1], ver |-> k[2], name |-> "ALPHA", rec |-> R1(k[1], k[2])] : k \in {<<"obs", 3>>, <<"obs", 2>>, <<"meteo", 3>>}}
McRecord(k, v) == {R2(k, v)}

(* --- simulation --- *)
Codes(v) == IF v = 2 THEN {"C1", "L1", "P2", "L2", "D1", "S1"} ELSE {"C1C", "L1C", "C2W", "L2W", "D1C", "S1C", "C5Q", "L5Q"}
Svs == {"G01", "G02", "G31", "R05", "R24", "E01", "E11"}
RVal(h) == (RandomElement(1..30000000) - 15000000) * RandomElement({1, 1, 1, 70})
RSig(x, h) == CHOOSE z \in {[sv |-> x[1], code |-> x[2], v |-> v, lli |-> l, ssi |-> q]
                            : v \in {RVal(h)}, l \in {RandomElement({None, None} \cup 0..7)}, q \in {RandomElement({None} \cup 1..8)}} : TRUE
RSigs(k, v, n) ==
  IF k = "meteo" THEN CHOOSE z \in {[i \in 1..Len(d) |-> [sv |-> "", code |-> d[i], v |-> 100 * RandomElement((-999 - i)..9999), lli |-> None, ssi |-> None]] : d \in {Draw({"PR", "TD", "HR"}, n)}} : TRUE
  ELSE CHOOSE z \in {[i \in 1..Len(d) |-> RSig(d[i], i)] : d \in {Draw(Svs \X Codes(v), n)}} : TRUE
RRec(k, v, n) == TLCEval([i \in 1..n |-> [t |-> 30 * i, flag |-> IF k = "obs" THEN RandomElement({0, 0, 1, 6}) ELSE 0, sig |-> RSigs(k, v, RandomElement(IF k = "meteo" THEN 1..(3 + 0 * i) ELSE 1..(9 + 0 * i)))]])
SimRecord(k, v) == {RRec(k, v, n) : n \in {RandomElement(IF v = 2 THEN {1, 2, 5} ELSE {1, 2, 6})}}
SimSet(h) == {[kind |-> x[1], ver |-> x[2], name |-> "ALPHA", rec |-> RRec(x[1], x[2], RandomElement({1, 2, 5 + h}))]
              : x \in {RandomElement({<<"obs", 2>>, <<"obs", 3>>, <<"obs", 3 + h>>, <<"meteo", 3>>})}}
=============================================================================
