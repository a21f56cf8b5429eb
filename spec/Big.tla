-------------------------------- MODULE Big --------------------------------
(* Integers beyond TLC's 32 bits: hi * 10^6 + lo, limbs of either sign.      *)
(* Linear operations work limb by limb; text needs the normal form.          *)
EXTENDS Text

B(h, l) == [hi |-> h, lo |-> l]
BAdd(a, b) == B(a.hi + b.hi, a.lo + b.lo)
BSub(a, b) == B(a.hi - b.hi, a.lo - b.lo)

(* [neg, hi, lo]: sign and magnitude *)
BAbs(x) ==
  LET c == x.lo \div 1000000        \* floor
      h == x.hi + c
      l == x.lo - c * 1000000
  IN IF h >= 0 THEN [neg |-> FALSE, hi |-> h, lo |-> l]
     ELSE IF l = 0 THEN [neg |-> TRUE, hi |-> -h, lo |-> 0]
     ELSE [neg |-> TRUE, hi |-> -h - 1, lo |-> 1000000 - l]
BNorm(x) == LET a == BAbs(x) IN IF a.neg THEN B(-a.hi, -a.lo) ELSE B(a.hi, a.lo)
BEq(a, b) == BAbs(a) = BAbs(b)

BDigits(a) == IF a.hi = 0 THEN ToString(a.lo) ELSE ToString(a.hi) \o Z(a.lo, 6)
BText(x) == LET a == BAbs(x) IN (IF a.neg THEN "-" ELSE "") \o BDigits(a)

IsBig(s) == LET t == IF Char(s, 1) = "-" THEN From(s, 2) ELSE s
            IN Len(t) \in 1..15 /\ Char(t, 1) # " " /\ IsInt(t)
BParse(s) == LET neg == Char(s, 1) = "-"
                 t == IF neg THEN From(s, 2) ELSE s
                 h == IF Len(t) > 6 THEN ToInt(SubSeq(t, 1, Len(t) - 6)) ELSE 0
                 l == IF Len(t) > 6 THEN ToInt(From(t, Len(t) - 5)) ELSE ToInt(t)
             IN IF neg THEN B(-h, -l) ELSE B(h, l)

(* fixed point text with w decimals, "0." when below one *)
BFixed(x, w) == LET a == BAbs(x)
                    d == BDigits(a)
                    z == IF Len(d) > w THEN d ELSE SubSeq("0000000000000000", 1, w + 1 - Len(d)) \o d
                IN (IF a.neg THEN "-" ELSE "") \o SubSeq(z, 1, Len(z) - w) \o "." \o From(z, Len(z) - w + 1)

(* n-th backward difference at the end of a sequence of at least n + 1 *)
RECURSIVE BDiff(_, _)
BDiff(n, s) == IF n = 0 THEN Last(s)
               ELSE BDiff(n - 1, [i \in 1..Len(s) - 1 |-> BSub(s[i + 1], s[i])])
Tails(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
=============================================================================
