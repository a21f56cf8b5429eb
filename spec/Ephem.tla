-------------------------------- MODULE Ephem --------------------------------
(* E01: what a set of broadcast messages answers: which ephemeris describes a *)
(* satellite at an instant, and what each kind of message is made available   *)
(* through. Instants are seconds since the start of week W, in the time scale *)
(* of the satellite's constellation; toe is announced as a week number and    *)
(* seconds of that week.                                                      *)
EXTENDS Text

CONSTANTS NewMessages(_, _), NewInstants(_), MaxMessages, Unit

VARIABLES msgs, ask, week, done
vars == <<msgs, ask, week, done>>

(* [k, sv, typ, toc, toe]: the k-th message, of kind typ *)
Kinds == {"EPH", "KLO", "NEQ", "BDG", "EOP", "STO"}
Week == 604800
Sbas(sv) == sv[1] = "S"
(* how long an ephemeris may be used from its reference on *)
Validity(s) == CASE s \in {"G", "J"} -> 7200 [] s = "E" -> 10800 [] s = "C" -> 21600 [] s = "R" -> 1800
(* GLONASS and SBAS messages announce no toe *)
Toe(m) == IF m.sv[1] \in {"R", "S"} THEN m.toc ELSE m.toe
Usable(m, sv, t) == /\ m.typ = "EPH" /\ m.sv = sv
                    /\ Sbas(sv) \/ (m.toc <= t /\ Toe(m) <= t /\ t < Toe(m) + Validity(sv[1]))
Away(m, t) == IF m.toc <= t THEN t - m.toc ELSE m.toc - t
(* the messages any of which is the right answer *)
Best(ms, sv, t) == {m \in ms : Usable(m, sv, t) /\ \A o \in ms : Usable(o, sv, t) => Away(m, t) <= Away(o, t)}
Of(typ) == {m.k : m \in {x \in msgs : x.typ = typ}}

Init == msgs = {} /\ ask = {} /\ week = 0 /\ done = FALSE
Start == /\ week = 0 /\ \E w \in NewInstants("week") : week' = w
         /\ UNCHANGED <<msgs, ask, done>>
(* a message that says the same of the same thing takes the place of another: *)
(* such sets are not built *)
Distinct(m) == \A o \in msgs : <<o.sv, o.toc, o.typ, o.kind>> # <<m.sv, m.toc, m.typ, m.kind>>
Say == /\ week # 0 /\ ~done /\ ask = {} /\ Cardinality(msgs) < MaxMessages
       /\ \E m \in NewMessages(msgs, Cardinality(msgs) + 1) : Distinct(m) /\ msgs' = msgs \cup {m}
       /\ UNCHANGED <<ask, week, done>>
Asks == /\ week # 0 /\ ~done /\ ask = {} /\ msgs # {}
        /\ \E q \in NewInstants("ask") : ask' = q
        /\ UNCHANGED <<msgs, week, done>>
Ids(S) == {m.k : m \in S}
Give(ms) == Emit([w |-> week, msgs |-> ms, sel |-> {[sv |-> q[1], t |-> q[2], scale |-> q[3], want |-> Ids(Best(ms, q[1], q[2]))] : q \in ask}])
Answer == /\ ask # {} /\ ~done /\ Give(msgs) /\ done' = TRUE /\ UNCHANGED <<msgs, ask, week>>
Next == Start \/ Say \/ Asks \/ Answer
Spec == Init /\ [][Next]_vars

(* --- what the answer must be --- *)
Sound == \A q \in ask : \A m \in Best(msgs, q[1], q[2]) : m.sv = q[1] /\ m.typ = "EPH"
NotLate == \A q \in ask : ~Sbas(q[1]) => \A m \in Best(msgs, q[1], q[2]) :
             m.toc <= q[2] /\ q[2] - Toe(m) \in 0..(Validity(q[1][1]) - 1)
Latest == \A q \in ask : ~Sbas(q[1]) => \A m \in Best(msgs, q[1], q[2]), o \in msgs :
             (o.sv = q[1] /\ o.typ = "EPH" /\ o.toc > m.toc /\ o.toc <= q[2]) => (Toe(o) > q[2] \/ Toe(o) + Validity(q[1][1]) <= q[2])
Found == \A q \in ask : (\E m \in msgs : Usable(m, q[1], q[2])) => Best(msgs, q[1], q[2]) # {}
(* messages about anything else have no influence *)
Others == \A q \in ask : Best(msgs, q[1], q[2]) = Best({m \in msgs : m.sv = q[1] /\ m.typ = "EPH"}, q[1], q[2])
(* a message is superseded by a later usable one only *)
Superseded == [][\A s \in {m.sv : m \in msgs}, u \in 0..8 :
                 LET t == u * Unit
                     a == Best(msgs, s, t)
                     b == Best(msgs', s, t)
                 IN a # b => \E m \in msgs' \ msgs : m \in b]_msgs

(* --- every small set, around the limits of validity --- *)
SmallMessages(ms, k) == {[k |-> k, sv |-> sv, typ |-> "EPH", kind |-> 0, toc |-> toc, toe |-> toc + d] :
                         sv \in {<<s, 7>> : s \in IF ms = {} THEN {"G", "E", "C", "R", "S"} ELSE {m.sv[1] : m \in ms}},
                         toc \in {Week, Week + Unit, Week + 2 * Unit}, d \in {0, Unit}}
SmallInstants(x) == IF x = "week" THEN {2150}
                    ELSE {{<<<<s, 7>>, Week + u * Unit + d, "own">> : u \in 0..16, d \in {-1, 0, 1}} : s \in {m.sv[1] : m \in msgs}}

(* --- random sets --- *)
Near(h) == RandomElement({0, 1, 2, 3, 4, 8, 16, 40}) * RandomElement({-900, 900, 1800})
RndMessages(ms, k) ==
  {[k |-> k, sv |-> IF typ = "BDG" THEN <<"C", sv[2]>> ELSE IF typ = "NEQ" THEN <<"E", sv[2]>> ELSE sv, typ |-> typ, kind |-> kind, toc |-> toc, toe |-> IF toc + d < 0 THEN toc ELSE toc + d] :
     sv \in {IF ms # {} /\ RandomElement(1..3) # 1 THEN RandomElement({m.sv : m \in ms}) ELSE <<RandomElement({"G", "G", "E", "C", "J", "R", "S"}), RandomElement({1, 2, 3, 8})>>},
     typ \in {IF RandomElement(1..4) = 1 THEN RandomElement(Kinds) ELSE "EPH"}, kind \in {RandomElement(0..1)},
     toc \in {IF ms # {} /\ RandomElement(1..4) # 1 THEN Max2(0, RandomElement({m.toc : m \in ms}) + Near(0))
              ELSE RandomElement({0, 1, 2}) * Week + RandomElement(0..100) * 600},
     d \in {RandomElement({0, 0, 0, 900, -900, 3600, -3600, 7200, 17, -14, 18})}}
Edge(m) == RandomElement({m.toc, Toe(m), Toe(m) + (IF Sbas(m.sv) THEN 86400 ELSE Validity(m.sv[1])), m.toc + RandomElement(0..10000)}) + RandomElement({-19, -18, -14, -1, 0, 0, 1, 14, 18})
RndInstants(x) == IF x = "week" THEN {RandomElement(1931..2290)}
                  ELSE IF Cardinality(msgs) < 10 /\ RandomElement(1..4) # 1 THEN {}
                  ELSE {{<<m.sv, Max2(100, Edge(m)), RandomElement({"own", "own", "GPST", "UTC", "BDT"})>> : m \in msgs}
                        \cup {<<<<RandomElement({"G", "E", "C", "R", "S", "J"}), RandomElement(1..8)>>, Week + 7, "own">>}}
=============================================================================
