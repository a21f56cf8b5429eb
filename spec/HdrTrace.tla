------------------------------ MODULE HdrTrace ------------------------------
(* Trace validation of headers written by the implementation: the reader of   *)
(* HdrText consumes the lines; the header is accepted when every line is      *)
(* understood, the counts are the declared ones, and the fields are those of  *)
(* the header that was written.                                               *)
EXTENDS HdrText, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, j, st
vars == <<i, j, st>>

T == Traces[i]
Init == i = 1 /\ j = 0 /\ st = Fresh

(* 0.50 is 0.5 *)
RECURSIVE NoZeros(_)
NoZeros(s) == IF s = "" THEN s ELSE IF SubSeq(s, Len(s), Len(s)) = "0" THEN NoZeros(SubSeq(s, 1, Len(s) - 1)) ELSE IF SubSeq(s, Len(s), Len(s)) = "." THEN SubSeq(s, 1, Len(s) - 1) ELSE s
HasDot(s) == \E k \in 1..Len(s) : SubSeq(s, k, k) = "."
Norm(s) == IF HasDot(s) THEN NoZeros(s) ELSE s
Nums(v) == [k \in 1..Len(v) |-> Norm(v[k])]
Blank(v) == \A k \in 1..Len(v) : v[k] = ""
Opt(v) == IF Blank(v) THEN <<>> ELSE v
(* eccentricities that are not known are written as zero *)
Ecc(v) == Nums(IF Len(v) = 0 THEN <<"0.0000", "0.0000", "0.0000">> ELSE v)
Date(v) == IF v = <<>> THEN v ELSE [v EXCEPT ![6] = Norm(@)]

AsSet(s) == {s[k] : k \in 1..Len(s)}
Sensor(x) == <<x[1], x[2], x[3], Norm(x[4])>>
Pos(x) == <<x[1]>> \o Nums(Tail(x))

View(hd, set(_)) == [ver |-> hd.ver, typ |-> hd.typ, sys |-> hd.sys, pgm |-> Opt(hd.pgm), notes |-> hd.notes, mname |-> hd.mname, mnum |-> hd.mnum,
  mtype |-> hd.mtype, obsr |-> Opt(hd.obsr), rec |-> Opt(hd.rec), ant |-> Opt(hd.ant), pos |-> Nums(hd.pos), hen |-> Ecc(hd.hen), xyz |-> Nums(hd.xyz),
  intv |-> Norm(hd.intv), codes |-> {hd.codes[k] : k \in 1..Len(hd.codes)}, leap |-> hd.leap, first |-> Date(hd.first), last |-> Date(hd.last),
  sensors |-> {Sensor(x) : x \in set(hd.sensors)}, spos |-> {Pos(x) : x \in {y \in set(hd.spos) : \E z \in set(hd.sensors) : z[1] = y[1]}}, glo |-> set(hd.glo), clk |-> IF hd.clk = "0" THEN "" ELSE hd.clk,
  dcb |-> {hd.dcb[k] : k \in 1..Len(hd.dcb)}, pcv |-> {hd.pcv[k] : k \in 1..Len(hd.pcv)}, scal |-> set(hd.scal), doi |-> hd.doi, lic |-> hd.lic, url |-> hd.url]
Id(s) == s
Fields == DOMAIN View(Empty, Id) \ AsSet(T.skip)
Bad == LET a == View(T.want, AsSet) b == View(st.hd, Id) IN {f \in Fields : a[f] # b[f]}

Consume == /\ i <= Len(Traces) /\ j < Len(T.lines) /\ st.err = ""
           /\ st' = TLCEval(Step(st, T.lines[j + 1]))
           /\ j' = j + 1 /\ UNCHANGED i
Judge == /\ i <= Len(Traces) /\ (j = Len(T.lines) \/ st.err # "")
         /\ IF st.err = "" /\ st.end /\ Counted(st.hd) /\ Bad = {} THEN TRUE
            ELSE Emit([bad |-> i, line |-> j, err |-> IF st.err # "" THEN st.err ELSE IF ~st.end THEN "no end" ELSE IF ~Counted(st.hd) THEN "count" ELSE "",
                       fields |-> IF st.err = "" THEN Bad ELSE {}])
         /\ i' = i + 1 /\ j' = 0 /\ st' = Fresh
Next == Consume \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
