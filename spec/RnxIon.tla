------------------------------- MODULE RnxIon -------------------------------
(* I01: a writer appends TEC, RMS and height maps and comments; a reader      *)
(* follows.                                                                   *)
EXTENDS IonText, Damage

CONSTANTS SomeCfg(_), SomeElem(_, _, _), MaxElems

VARIABLES cfg, n, lines, maps, ends, read, st, len, done
vars == <<cfg, n, lines, maps, ends, read, st, len, done>>

Init == /\ cfg = <<>> /\ n = 0 /\ lines = <<>> /\ maps = <<>> /\ ends = <<>> /\ read = 0 /\ st = <<>> /\ len = -1 /\ done = FALSE

Start == /\ len = -1
         /\ len' \in Some(1..MaxElems)
         /\ \E c \in SomeCfg(len) : cfg' = c /\ st' = Idle(c)
         /\ UNCHANGED <<n, lines, maps, ends, read, done>>

EpochsOf(k) == {maps[i].t : i \in {i \in 1..Len(maps) : maps[i].kind = k}}

Write == /\ len # -1 /\ read = Len(lines) /\ n < len
         /\ \E e \in SomeElem(cfg, n, maps) :
              IF e.k = "note" THEN lines' = lines \o e.lines /\ maps' = maps /\ ends' = ends
              ELSE /\ e.m.t \notin EpochsOf(e.m.kind)
                   (* an exponent, once a map has changed it, is restated by every map *)
                   /\ (\E i \in 1..Len(maps) : maps[i].exp # None) => e.m.exp # None
                   /\ lines' = TLCEval(lines \o WMap(cfg, Len(maps) + 1, e.m))
                   /\ maps' = Append(maps, e.m)
                   /\ ends' = Append(ends, Len(lines'))
         /\ n' = n + 1
         /\ UNCHANGED <<cfg, read, st, len, done>>

Read == /\ read < Len(lines)
        /\ read' = read + 1
        /\ st' = TLCEval(Step(st, lines[read + 1]))
        /\ UNCHANGED <<cfg, n, lines, maps, ends, len, done>>

(* neighbours of places of an axis (fortieths): its own points, which are      *)
(* their own lower neighbour, and places inside its cells                     *)
Ticks(a) == {a.a + i * a.d : i \in 0..a.n - 1}
Cell(a) == {i \in 0..a.n - 2 : i < 2 \/ i > a.n - 4}
Inner(a) == UNION {{4 * (a.a + i * a.d) + k * a.d : k \in 1..3} : i \in Cell(a)}
Below(a, x) == CHOOSE g \in Ticks(a) : 4 * g <= x /\ \A u \in Ticks(a) : 4 * u > x \/ u <= g
Beyond(a, x) == CHOOSE g \in Ticks(a) : 4 * g > x /\ \A u \in Ticks(a) : 4 * u <= x \/ u >= g
Near(a) == {<<4 * g, g, "any">> : g \in Ticks(a)} \cup {<<x, Below(a, x), ToString(Beyond(a, x))>> : x \in Inner(a)}

Finish == /\ ~done /\ len # -1 /\ read = Len(lines) /\ n = len
          /\ Emit([cfg |-> cfg, lines |-> lines, pts |-> st.pts, damages |-> Plan(ends, Len(lines)), near |-> [k \in {"lat", "lon", "hgt"} |-> Near(cfg[k])],
                   maps |-> [i \in 1..Len(maps) |-> [kind |-> maps[i].kind, t |-> maps[i].t, end |-> ends[i]]]])
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, n, lines, maps, ends, read, st, len>>

Next == Start \/ Write \/ Read \/ Finish
Spec == Init /\ [][Next]_vars

(* --- what the maps hold, seen from the grid --- *)
ExpOf(m) == IF m.exp # None THEN m.exp ELSE IF cfg.exp # None THEN cfg.exp ELSE DefaultExp
Cells(k) == {<<i, r, c>> : i \in {i \in 1..Len(maps) : maps[i].kind = k}, r \in 1..cfg.hgt.n * cfg.lat.n, c \in 1..cfg.lon.n}
At(q) == maps[q[1]].rows[q[2]][q[3]]
RmsOf(q) == {z \in Cells("RMS") : maps[z[1]].t = maps[q[1]].t /\ z[2] = q[2] /\ z[3] = q[3] /\ At(z) # Missing}
Point(q) == LET r == RmsOf(q) IN
  [t |-> maps[q[1]].t, lat |-> Rows(cfg)[q[2]].lat, h |-> Rows(cfg)[q[2]].h, lon |-> cfg.lon.a + (q[3] - 1) * cfg.lon.d,
   v |-> At(q), e |-> ExpOf(maps[q[1]]),
   rv |-> IF r = {} THEN Missing ELSE At(CHOOSE z \in r : TRUE),
   re |-> IF r = {} THEN 0 ELSE ExpOf(maps[(CHOOSE z \in r : TRUE)[1]])]
Order == \A i \in 1..Len(maps) : maps[i].kind = "RMS" => \A j \in i..Len(maps) : maps[j].kind # "TEC" \/ maps[j].t # maps[i].t
Faithful == (len # -1 /\ read = Len(lines) /\ Order) =>
              /\ Len(st.pts) = Cardinality({q \in Cells("TEC") : At(q) # Missing})
              /\ {st.pts[i] : i \in 1..Len(st.pts)} = {Point(q) : q \in {q \in Cells("TEC") : At(q) # Missing}}
Columns == \A i \in 1..Len(lines) : Len(lines[i]) <= 80

Note == [k |-> "note", lines |-> <<PadR("EPOCH OF CURRENT MAP  EXPONENT  START OF TEC MAP", 60) \o "COMMENT">>]

(* the neighbours of a place are one step apart                               *)
Tight == \A k \in {"lat", "lon", "hgt"} : cfg # <<>> => \A x \in Inner(cfg[k]) :
           /\ Beyond(cfg[k], x) - Below(cfg[k], x) = IF cfg[k].d < 0 THEN -cfg[k].d ELSE cfg[k].d
           /\ 4 * Below(cfg[k], x) < x

(* --- exhaustive --- *)
McCfg(h) == {z \in {[lat |-> la, lon |-> lo, hgt |-> hg, exp |-> e, trim |-> TRUE]
             : la \in {[a |-> 25, d |-> -25, n |-> 2]}, lo \in {[a |-> -1800, d |-> 50, n |-> 1], [a |-> 0, d |-> 3, n |-> 2]},
               hg \in {[a |-> 4500, d |-> 0, n |-> 1]}, e \in {None, 0}} : z.lon.n = 1 => z.exp = None}
McElem(c, i, ms) ==
  {[k |-> "map", m |-> [kind |-> k, t |-> <<2020, 1, 1, hh, 0, 0>>, exp |-> e, first |-> "T", rows |-> <<r, [j \in 1..c.lon.n |-> 12345]>>]]
     : k \in Kinds, hh \in {0, 2}, e \in {None, -2}, r \in {[j \in 1..c.lon.n |-> IF j = 1 THEN 92 ELSE Missing], [j \in 1..c.lon.n |-> IF j = 1 THEN Missing ELSE -7]}} \cup {Note}

(* --- simulation --- *)
RAxis(h, as, ds, ns) == CHOOSE z \in {[a |-> a, d |-> d, n |-> k] : a \in {RandomElement(as)}, d \in {RandomElement(ds)}, k \in {RandomElement(ns)}} : TRUE
SimCfg(h) == {[lat |-> la, lon |-> lo, hgt |-> hg, exp |-> e, trim |-> Coin(h, 1, 2),
               day |-> <<RandomElement(1995..2030), RandomElement(1..12), RandomElement(1..28)>>, chg |-> Coin(h, 1, 3), plain |-> Coin(h, 2, 3)]
              : la \in {RAxis(1, {875, -875, 700, 25, 0, -100, 503}, {-25, 25, 50, -10, 5}, 1..4)},
                lo \in {RAxis(2, {-1800, 0, 50, -300, -125, 1}, {50, 50, 25, 10, 3, 100}, {1, 2, 5, 15, 16, 17, 20, 32, 33})},
                hg \in {IF Coin(h, 1, 3) THEN RAxis(3, {1000, 3500, 125, 5067}, {500, 125, 1000, 7}, 2..3)
                        ELSE [a |-> RandomElement({4500, 3500, 5067, 4001, 0}), d |-> 0, n |-> 1]},
                e \in {RandomElement({None, -1, -1, 0, -2, 1})}}
RV(h) == CASE RandomElement(1..6) = 1 -> Missing
           [] RandomElement(1..8) = 1 -> RandomElement({0, -12, 9998, 99999, 10000, -999, -9999, 12345})
           [] OTHER -> RandomElement(0..999)
RRows(c) == TLCEval([r \in 1..c.hgt.n * c.lat.n |-> TLCEval([j \in 1..c.lon.n |-> RV(j)])])
Tm(c, i) == c.day \o <<i \div 2, 30 * (i % 2), 0>>
(* two thirds of the files list all TEC, then all RMS, then all height maps *)
RElem(c, i) ==
  {IF r = 1 THEN Note
   ELSE [k |-> "map", m |-> [kind |-> kd, t |-> Tm(c, CASE kd = "TEC" -> i
                                                     [] OTHER -> RandomElement({RandomElement(0..i), i - 3, i - 2, i - 4} \cap 0..100)),
         exp |-> IF c.chg /\ i > 0 THEN RandomElement({-3, -2, -1, 0, 1}) ELSE None,
         first |-> RandomElement({"T", "E"}), rows |-> RRows(c)]]
   : r \in {RandomElement(1..12)},
     kd \in {IF c.plain THEN (IF i < 4 THEN "TEC" ELSE IF i < 7 THEN "RMS" ELSE "HEIGHT")
             ELSE RandomElement({"TEC", RandomElement({"TEC", "RMS", "HEIGHT"})})}}
SimElem(c, i, ms) ==
  {IF e.k = "map" /\ \E j \in 1..Len(ms) : ms[j].kind = e.m.kind /\ ms[j].t = e.m.t THEN Note ELSE e : e \in RElem(c, i)}
=============================================================================
