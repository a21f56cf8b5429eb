------------------------------ MODULE CrxTrace ------------------------------
(* Trace validation of compact bodies written by the implementation: every    *)
(* line is consumed by the decoder of Crinex, which knows nothing but the     *)
(* rules; the stream is accepted when it follows them and the epochs decoded  *)
(* are the ones handed to the writer.                                         *)
EXTENDS Crinex, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES i, j, st
vars == <<i, j, st>>

T == Traces[i]
Init == i = 1 /\ j = 0 /\ st = DIdle

Same(a, b) == /\ \A f \in {"y", "mo", "d", "h", "mi", "s", "f", "flag", "clk"} : a[f] = b[f]
              /\ Len(a.sats) = Len(b.sats)
              /\ {a.sats[n] : n \in 1..Len(a.sats)} = {b.sats[n] : n \in 1..Len(b.sats)}
SameAll(as, bs) == Len(as) = Len(bs) /\ \A n \in 1..Len(as) : Same(as[n], bs[n])
FirstBad(as, bs) == IF \E n \in 1..Min2(Len(as), Len(bs)) : ~Same(as[n], bs[n])
                    THEN SetMin({n \in 1..Min2(Len(as), Len(bs)) : ~Same(as[n], bs[n])})
                    ELSE Min2(Len(as), Len(bs)) + 1

Consume == /\ i <= Len(Traces) /\ j < Len(T.lines) /\ st.mode # "lost"
           /\ st' = TLCEval(DStep(T.cfg, st, T.lines[j + 1]))
           /\ j' = j + 1 /\ UNCHANGED i
Judge == /\ i <= Len(Traces) /\ (j = Len(T.lines) \/ st.mode = "lost")
         /\ LET want == [n \in 1..Len(T.epochs) |-> Norm(T.cfg, T.epochs[n])]
            IN IF st.mode = "epoch" /\ SameAll(want, st.out) THEN TRUE
               ELSE Emit([bad |-> i, line |-> j, mode |-> st.mode, err |-> st.err, epoch |-> FirstBad(want, st.out)])
         /\ i' = i + 1 /\ j' = 0 /\ st' = DIdle
Next == Consume \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
