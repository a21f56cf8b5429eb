------------------------------ MODULE ObsTrace ------------------------------
(* Trace validation of observation bodies written by the implementation: the  *)
(* lines of each recorded file are consumed by the reader of ObsText; the     *)
(* file is accepted when every line is understood and the epochs read are the *)
(* ones that were handed to the writer.                                       *)
EXTENDS ObsText, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, j, st
vars == <<i, j, st>>

T == Traces[i]
Init == i = 1 /\ j = 0 /\ st = Idle

Same(a, b) == /\ \A f \in {"y", "mo", "d", "h", "mi", "s", "f", "flag"} : a[f] = b[f]
              /\ Trim(a.clk) = Trim(b.clk)
              /\ Len(a.sats) = Len(b.sats)
              /\ {a.sats[n] : n \in 1..Len(a.sats)} = {b.sats[n] : n \in 1..Len(b.sats)}
SameAll(as, bs) == Len(as) = Len(bs) /\ \A n \in 1..Len(as) : Same(as[n], bs[n])
FirstBad(as, bs) == IF \E n \in 1..Min2(Len(as), Len(bs)) : ~Same(as[n], bs[n])
                    THEN SetMin({n \in 1..Min2(Len(as), Len(bs)) : ~Same(as[n], bs[n])})
                    ELSE Min2(Len(as), Len(bs)) + 1

Consume == /\ i <= Len(Traces) /\ j < Len(T.lines) /\ st.mode # "lost"
           /\ st' = TLCEval(Step(T.cfg, st, T.lines[j + 1]))
           /\ j' = j + 1 /\ UNCHANGED i
Judge == /\ i <= Len(Traces) /\ (j = Len(T.lines) \/ st.mode = "lost")
         /\ IF st.mode = "idle" /\ SameAll(T.epochs, st.out) THEN TRUE
            ELSE Emit([bad |-> i, line |-> j, mode |-> st.mode, err |-> st.err, epoch |-> FirstBad(T.epochs, st.out)])
         /\ i' = i + 1 /\ j' = 0 /\ st' = Idle
Next == Consume \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
