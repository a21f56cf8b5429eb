------------------------------ MODULE TextDiff ------------------------------
(* Hatanaka text kernel.  Texts are sequences of one-character strings.      *)
(*                                                                           *)
(* Coder: a blank where the character is unchanged, '&' where it became (or  *)
(* the position is now past the end and used not to be) blank, the character *)
(* where it changed, and the whole new tail with its blanks as '&'.          *)
(* Decoder: overlays the coded line on its own buffer, which never shrinks.  *)
(* C02 is the invariant Restores: the decoder returns the line, padded with  *)
(* blanks to the longest line since the last initialisation.                 *)
EXTENDS Gen

CONSTANTS Chars,        \* characters of the texts, without '&'
          MaxLen, MaxOps,
          SomeText(_),  \* texts to choose from, given the previous text
          SampleWeight

VARIABLES ops, coded, prev, buf, decoded, started, done
vars == <<ops, coded, prev, buf, decoded, started, done>>

RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ Last(s) = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

Pad(s, n) == s \o [i \in 1 .. Max2(0, n - Len(s)) |-> " "]

(* coded form of text t after text p, without trailing no-change marks *)
Code(p, t) ==
  TrimR(TLCEval([i \in 1 .. Max2(Len(p), Len(t)) |->
     IF i <= Len(p) /\ i <= Len(t) THEN
        IF p[i] = t[i] THEN " " ELSE IF t[i] = " " THEN "&" ELSE t[i]
     ELSE IF i <= Len(t) THEN IF t[i] = " " THEN "&" ELSE t[i]
     ELSE IF p[i] = " " THEN " " ELSE "&"]))

Decode(b, c) ==
  [i \in 1 .. Max2(Len(b), Len(c)) |->
     IF i > Len(c) THEN b[i]
     ELSE IF c[i] = "&" THEN " "
     ELSE IF c[i] = " " THEN (IF i <= Len(b) THEN b[i] ELSE " ")
     ELSE c[i]]

Init == /\ ops = <<>> /\ coded = <<>> /\ prev = <<>> /\ buf = <<>>
        /\ decoded = <<>> /\ started = FALSE /\ done = FALSE

Reset == \E t \in SomeText(prev) :
           /\ ops' = Append(ops, [k |-> "init", v |-> t])
           /\ coded' = Append(coded, t)
           /\ prev' = t /\ buf' = t /\ decoded' = Append(decoded, t)
           /\ started' = TRUE

(* the coded line may travel trimmed or with n no-change marks at its end *)
Line == \E t \in SomeText(prev), n \in Some(0 .. 2) :
           LET c == TLCEval(Code(prev, t))
               w == Max2(Len(prev), Len(t))
               sent == TLCEval(c \o [i \in 1 .. Min2(n, Max2(0, w - Len(c))) |-> " "])
               b == TLCEval(Decode(buf, sent))
           IN /\ ops' = Append(ops, [k |-> "text", v |-> t])
              /\ coded' = Append(coded, sent)
              /\ prev' = t /\ buf' = b /\ decoded' = Append(decoded, b)
              /\ UNCHANGED started

Next == \/ /\ Len(ops) < MaxOps
           /\ \/ Reset
              \/ started /\ \E i \in 1..SampleWeight : Line
           /\ UNCHANGED done
        \/ /\ ~done /\ Len(ops) = MaxOps
           /\ Emit([ops |-> ops, coded |-> coded, decoded |-> decoded])
           /\ done' = TRUE
           /\ UNCHANGED <<ops, coded, prev, buf, decoded, started>>

Spec == Init /\ [][Next]_vars

Restores == \A i \in 1 .. Len(ops) :
              /\ Len(decoded[i]) >= Len(ops[i].v)
              /\ decoded[i] = Pad(ops[i].v, Len(decoded[i]))

McText(p) == UNION { [1..n -> Chars] : n \in 0 .. MaxLen }

RECURSIVE Mutate(_, _, _)
(* character by character: keep, blank or replace; then drop or add a tail *)
Mutate(p, i, n) ==
  IF i > n THEN <<>>
  ELSE LET r == RandomElement(1 .. 6)
           ch == IF i <= Len(p) /\ r <= 4 THEN p[i]
                 ELSE IF r = 5 THEN " " ELSE RandomElement(Chars)
       IN <<ch>> \o Mutate(p, i + 1, n)
SimText(p) == \* mostly same length, sometimes shorter or longer
  LET r == RandomElement(1 .. 6)
      n == IF r <= 2 THEN Len(p)
           ELSE IF r = 3 THEN RandomElement(0 .. Len(p))
           ELSE Min2(MaxLen, Len(p) + RandomElement(0 .. (MaxLen \div 3)))
  IN { TLCEval(Mutate(p, 1, n)) }
=============================================================================
