-------------------------------- MODULE Text --------------------------------
(* Fixed-column text, the material of every format here.  Columns count from *)
(* 1 and a line that ends early reads as blanks.                             *)
EXTENDS Gen

Blank80 == "                                                                                "
RECURSIVE Sp(_)
Sp(n) == IF n <= 80 THEN SubSeq(Blank80, 1, n) ELSE Blank80 \o Sp(n - 80)

PadL(s, w) == IF Len(s) >= w THEN s ELSE Sp(w - Len(s)) \o s
PadR(s, w) == IF Len(s) >= w THEN s ELSE s \o Sp(w - Len(s))
Z(n, w) == LET s == ToString(n)
           IN IF Len(s) >= w THEN s ELSE SubSeq("000000000000", 1, w - Len(s)) \o s
I(n, w) == PadL(ToString(n), w)

IsBlank(s) == s = Sp(Len(s))
Char(s, i) == IF i <= Len(s) THEN SubSeq(s, i, i) ELSE " "
Cols(s, a, b) == IF Len(s) >= b THEN SubSeq(s, a, b)
                 ELSE IF Len(s) < a THEN Sp(b - a + 1)
                 ELSE PadR(SubSeq(s, a, Len(s)), b - a + 1)
From(s, a) == IF Len(s) < a THEN "" ELSE SubSeq(s, a, Len(s))

RECURSIVE RTrim(_)
RTrim(s) == IF s = "" THEN s
            ELSE IF Len(s) > 16 /\ SubSeq(s, Len(s) - 15, Len(s)) = Sp(16)
                   THEN RTrim(SubSeq(s, 1, Len(s) - 16))
            ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN RTrim(SubSeq(s, 1, Len(s) - 1))
            ELSE s
RECURSIVE LTrim(_)
LTrim(s) == IF s = "" THEN s
            ELSE IF SubSeq(s, 1, 1) = " " THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
Trim(s) == LTrim(RTrim(s))

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
(* an unsigned integer, blank padded on its left *)
IsInt(s) == LET t == LTrim(s) IN t # "" /\ \A i \in 1..Len(t) : SubSeq(t, i, i) \in Digits
RECURSIVE IntAcc(_, _)
IntAcc(s, acc) == IF s = "" THEN acc
                  ELSE IntAcc(SubSeq(s, 2, Len(s)), 10 * acc + Digit(SubSeq(s, 1, 1)))
ToInt(s) == IntAcc(LTrim(s), 0)

RECURSIVE Cat(_)      \* concatenation of a sequence of strings
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))

RECURSIVE RemoveDot(_)
RemoveDot(s) == IF s = "" THEN s
                ELSE IF SubSeq(s, 1, 1) = "." THEN From(s, 2)
                ELSE SubSeq(s, 1, 1) \o RemoveDot(From(s, 2))

(* [neg, int, frac] with w digits of fraction, as a number *)
Num(x, w) == (IF x.neg THEN "-" ELSE "") \o ToString(x.int) \o "." \o Z(x.frac, w)

(* --- drawing at random (simulation only; the argument keeps TLC from       *)
(* treating the draw as a constant) ---                                      *)
Coin(h, a, b) == RandomElement(1..b) <= a
RECURSIVE Draw(_, _)  \* n distinct elements of S, in random order
Draw(S, n) == IF n = 0 \/ S = {} THEN <<>>
              ELSE CHOOSE z \in {<<x>> \o Draw(S \ {x}, n - 1) : x \in {RandomElement(S)}} : TRUE
One(h, S) == RandomElement(S)
(* a natural number below 10^9, of any magnitude *)
RndNat(h) == CASE RandomElement(1..4) = 1 -> RandomElement(0..9)
               [] RandomElement(1..3) = 1 -> RandomElement(0..999)
               [] OTHER -> (RandomElement(1..30) * 33331 + RandomElement(0..999)) * RandomElement(0..999)
=============================================================================
