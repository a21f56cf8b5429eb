------------------------------- MODULE IonText -------------------------------
(* IONEX bodies.  A map opens with its kind, carries its epoch and maybe the  *)
(* exponent of its unit, then one row of values per height and latitude; a    *)
(* row names its latitude, longitudes and height in tenths, and its values    *)
(* follow sixteen to the line.  RMS maps qualify the TEC of the same epoch.   *)
(* cfg = [lat, lon, hgt : [a, d, n] in tenths, exp (None: absent), trim]      *)
(* map = [kind, t, exp (None: absent), first ("T" or "E"), rows]              *)
EXTENDS Text

None == 99
Missing == 9999
DefaultExp == -1
PerLine == 16
Axis(a) == [i \in 1..a.n |-> a.a + (i - 1) * a.d]

(* ---------------------------------------------------------- the writer --- *)
Abs(n) == IF n < 0 THEN -n ELSE n
F61(n) == PadL((IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 10) \o "." \o ToString(Abs(n) % 10), 6)
SI(n, w) == PadL((IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n)), w)
Lab(s, l) == PadR(s, 60) \o PadR(l, 20)
WExp(e) == IF e = None THEN <<>> ELSE <<Lab(SI(e, 6), "EXPONENT")>>
WEpoch(t) == <<Lab(Cat([i \in 1..6 |-> I(t[i], 6)]), "EPOCH OF CURRENT MAP")>>
WVals(cfg, vs) == [l \in 1..((Len(vs) + PerLine - 1) \div PerLine) |->
                    LET s == Cat([i \in 1..Min2(PerLine, Len(vs) - PerLine * (l - 1)) |-> SI(vs[PerLine * (l - 1) + i], 5)])
                    IN IF cfg.trim THEN s ELSE PadR(s, 80)]
Rows(cfg) == [r \in 1..cfg.hgt.n * cfg.lat.n |-> [h |-> Axis(cfg.hgt)[1 + ((r - 1) \div cfg.lat.n)], lat |-> Axis(cfg.lat)[1 + ((r - 1) % cfg.lat.n)]]]
WRow(cfg, r, vs) ==
  LET lon == Axis(cfg.lon) IN
  <<Lab(Sp(2) \o F61(r.lat) \o F61(lon[1]) \o F61(lon[Len(lon)]) \o F61(cfg.lon.d) \o F61(r.h), "LAT/LON1/LON2/DLON/H")>> \o WVals(cfg, vs)
WMap(cfg, n, m) ==
  LET op == <<Lab(I(n, 6), "START OF " \o m.kind \o " MAP")>>
      hd == IF m.first = "T" THEN WEpoch(m.t) \o WExp(m.exp) ELSE WExp(m.exp) \o WEpoch(m.t)
  IN TLCEval(op \o hd \o FlatSeq([r \in 1..Len(m.rows) |-> WRow(cfg, Rows(cfg)[r], m.rows[r])])
             \o <<Lab(I(n, 6), "END OF " \o m.kind \o " MAP")>>)

(* ---------------------------------------------------------- the reader --- *)
SVal(s) == LET t == Trim(s) IN IF SubSeq(t, 1, 1) = "-" THEN -ToInt(From(t, 2)) ELSE ToInt(t)
Tenths(s) == LET t == RemoveDot(Trim(s)) IN SVal(t)
Label(l) == Trim(Cols(l, 61, 80))
Kinds == {"TEC", "RMS", "HEIGHT"}
(* points: sequence of [t, lat, lon, h, v, e, rv, re]; rv = Missing without RMS *)
Idle(cfg) == [kind |-> "", t |-> <<>>, e |-> IF cfg.exp = None THEN DefaultExp ELSE cfg.exp, row |-> <<>>, k |-> 0, pts |-> <<>>]
Same(p, t, r, lon) == p.t = t /\ p.lat = r.lat /\ p.h = r.h /\ p.lon = lon
Put(st, v) ==
  LET lon == st.row.lon + st.k * st.row.d
      s1 == [st EXCEPT !.k = @ + 1]
  IN IF v = Missing \/ st.kind = "HEIGHT" THEN s1
     ELSE IF st.kind = "TEC"
     THEN [s1 EXCEPT !.pts = Append(@, [t |-> st.t, lat |-> st.row.lat, lon |-> lon, h |-> st.row.h, v |-> v, e |-> st.e, rv |-> Missing, re |-> 0])]
     ELSE [s1 EXCEPT !.pts = TLCEval([i \in 1..Len(@) |-> IF Same(@[i], st.t, st.row, lon) THEN [@[i] EXCEPT !.rv = v, !.re = st.e] ELSE @[i]])]
RECURSIVE PutAll(_, _)
PutAll(st, l) == IF IsBlank(l) THEN st ELSE PutAll(TLCEval(Put(st, SVal(Cols(l, 1, 5)))), From(l, 6))
Step(st, l) ==
  LET lb == Label(l) IN
  IF Len(l) > 60 /\ lb = "COMMENT" THEN st
  ELSE IF \E k \in Kinds : lb = "START OF " \o k \o " MAP"
  THEN [st EXCEPT !.kind = CHOOSE k \in Kinds : lb = "START OF " \o k \o " MAP"]
  ELSE IF \E k \in Kinds : lb = "END OF " \o k \o " MAP" THEN [st EXCEPT !.kind = "", !.t = <<>>]
  ELSE IF lb = "END OF FILE" THEN st
  ELSE IF lb = "EXPONENT" THEN [st EXCEPT !.e = SVal(Cols(l, 1, 6))]
  ELSE IF lb = "EPOCH OF CURRENT MAP" THEN [st EXCEPT !.t = TLCEval([i \in 1..6 |-> ToInt(Cols(l, 6 * i - 5, 6 * i))])]
  ELSE IF lb = "LAT/LON1/LON2/DLON/H"
  THEN [st EXCEPT !.row = [lat |-> Tenths(Cols(l, 3, 8)), lon |-> Tenths(Cols(l, 9, 14)), d |-> Tenths(Cols(l, 21, 26)), h |-> Tenths(Cols(l, 27, 32))],
                  !.k = 0]
  ELSE IF st.kind # "" THEN PutAll(st, l) ELSE st
=============================================================================
