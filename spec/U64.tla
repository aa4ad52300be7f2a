-------------------------------- MODULE U64 --------------------------------
(***************************************************************************)
(* Text helpers and unsigned 64-bit numbers.  TLC integers are 32-bit, so  *)
(* a 64-bit number is a tuple of five base-10^4 limbs, most significant    *)
(* first.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
Prefix(s, n) == SubSeq(s, 1, n)
From(s, i) == SubSeq(s, i, Len(s))

DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
              CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
IsDigit(c) == c \in DOMAIN DigitVal
Space == {" ", "\t", "\n", "\r", "\f"}  \* (vertical tab cannot be written in TLA+; drivers do not use it)

RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Space THEN SkipSpace(s, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN SkipDigits(s, i + 1) ELSE i
RECURSIVE SkipZeros(_, _)
SkipZeros(s, i) == IF i < Len(s) /\ Ch(s, i) = "0" THEN SkipZeros(s, i + 1) ELSE i

U0 == <<0, 0, 0, 0, 0>>
U1 == <<0, 0, 0, 0, 1>>
UMax == <<1844, 6744, 737, 955, 1615>>
UMod == <<1844, 6744, 737, 955, 1616>>
UHigh == <<922, 3372, 368, 5477, 5808>>        \* 2^63
Bad == <<>>                                    \* "not a number"

RECURSIVE TupLt(_, _, _)
TupLt(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i]
                  ELSE TupLt(a, b, i + 1)
Lt(a, b) == TupLt(a, b, 1)                     \* lexicographic: numbers of equal width, and byte strings
Le(a, b) == ~Lt(b, a)

(* decimal digits (no sign, no blanks) to limbs; Bad when it exceeds 64 bits *)
Digits4(z, i) == 1000 * DigitVal[Ch(z, i)] + 100 * DigitVal[Ch(z, i + 1)] + 10 * DigitVal[Ch(z, i + 2)] + DigitVal[Ch(z, i + 3)]
ParseDigits(ds) ==
  LET d == From(ds, SkipZeros(ds, 1))
  IN IF Len(d) > 20 THEN Bad
     ELSE LET z == Prefix("00000000000000000000", 20 - Len(d)) \o d
              u == <<Digits4(z, 1), Digits4(z, 5), Digits4(z, 9), Digits4(z, 13), Digits4(z, 17)>>
          IN IF Lt(UMax, u) THEN Bad ELSE u

(* a + b and a - b on limbs *)
Carry(x) == LET e == x[5]  d == x[4] + (e \div 10000)  c == x[3] + (d \div 10000)
                b == x[2] + (c \div 10000)  a == x[1] + (b \div 10000)
            IN <<a, b % 10000, c % 10000, d % 10000, e % 10000>>
SubLimbs(a, b) == \* requires b <= a; \div and % are floor-based, which makes the borrow work
  Carry([i \in 1..5 |-> a[i] - b[i]])
AddMod(a, b) == LET s == Carry([i \in 1..5 |-> a[i] + b[i]])
                IN IF Lt(s, UMod) THEN s ELSE SubLimbs(s, UMod)
SubFloor(a, b) == IF Lt(a, b) THEN U0 ELSE SubLimbs(a, b)

Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
UStr(u) == LET s == Pad4(u[1]) \o Pad4(u[2]) \o Pad4(u[3]) \o Pad4(u[4]) \o Pad4(u[5])
           IN From(s, SkipZeros(s, 1))

(* What the server takes for a number: optional blanks, optional sign, digits, then end or a blank. *)
ParseU64(s) ==
  LET i == SkipSpace(s, 1)
      neg == i <= Len(s) /\ Ch(s, i) = "-"
      j == IF i <= Len(s) /\ Ch(s, i) \in {"-", "+"} THEN i + 1 ELSE i
      k == SkipDigits(s, j)
  IN IF k = j THEN Bad
     ELSE IF k <= Len(s) /\ Ch(s, k) \notin Space THEN Bad
     ELSE LET u == ParseDigits(SubSeq(s, j, k - 1))
          IN IF u = Bad THEN Bad
             ELSE IF ~neg \/ u = U0 THEN u
             ELSE LET n == SubLimbs(UMod, u) IN IF Lt(n, UHigh) THEN n ELSE Bad
============================================================================
