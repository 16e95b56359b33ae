------------------------------ MODULE RshStr ------------------------------
(* Operators on strings, which TLC treats as sequences of characters of    *)
(* which only Len, SubSeq and \o are available.                             *)
EXTENDS Integers, Sequences, FiniteSets

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))

White == {" ", "\t", "\n", "\r", "\f"}

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* The first position >= i where the pattern p is found, 0 if there is none *)
RECURSIVE Find(_, _, _)
Find(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE Find(s, p, i + 1)

Contains(s, p) == Find(s, p, 1) # 0

(* The first position >= i of a character of the set C, Len(s)+1 if none *)
RECURSIVE ScanTo(_, _, _)
ScanTo(s, C, i) ==
  IF i > Len(s) THEN i ELSE IF Ch(s, i) \in C THEN i ELSE ScanTo(s, C, i + 1)

(* The first position >= i of a character that is not in C *)
RECURSIVE ScanOver(_, _, _)
ScanOver(s, C, i) ==
  IF i > Len(s) THEN i ELSE IF Ch(s, i) \notin C THEN i ELSE ScanOver(s, C, i + 1)

(* The last position <= i of a character that is not in C *)
RECURSIVE ScanBack(_, _, _)
ScanBack(s, C, i) ==
  IF i < 1 THEN i ELSE IF Ch(s, i) \notin C THEN i ELSE ScanBack(s, C, i - 1)

TrimWhite(s) ==
  LET a == ScanOver(s, White, 1)
      b == ScanBack(s, White, Len(s))
  IN  IF a > b THEN "" ELSE SubSeq(s, a, b)

(* All the pieces between occurrences of p (at least one piece) *)
RECURSIVE SplitOn(_, _)
SplitOn(s, p) ==
  LET k == Find(s, p, 1)
  IN  IF k = 0 THEN <<s>>
      ELSE <<SubSeq(s, 1, k - 1)>> \o SplitOn(From(s, k + Len(p)), p)

(* The maximal pieces without white space *)
RECURSIVE SplitWhite(_)
SplitWhite(s) ==
  LET a == ScanOver(s, White, 1)
      b == ScanTo(s, White, a)
  IN  IF a > Len(s) THEN <<>> ELSE <<SubSeq(s, a, b - 1)>> \o SplitWhite(From(s, b))

(* The maximal pieces without white space, where what is between two equal
   quote characters is not looked at *)
RECURSIVE PieceEnd(_, _)
PieceEnd(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF Ch(s, i) \in White THEN i
  ELSE IF Ch(s, i) \in {"'", "\""}
       THEN PieceEnd(s, ScanTo(s, {Ch(s, i)}, i + 1) + 1)
  ELSE PieceEnd(s, i + 1)

RECURSIVE SplitIgQ(_)
SplitIgQ(s) ==
  LET a == ScanOver(s, White, 1)
      b0 == PieceEnd(s, a)
      b == IF b0 > Len(s) + 1 THEN Len(s) + 1 ELSE b0
  IN  IF a > Len(s) THEN <<>> ELSE <<SubSeq(s, a, b - 1)>> \o SplitIgQ(From(s, b))

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN ""
  ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] c = "9" -> 9

RECURSIVE NatOf(_)
NatOf(s) == IF s = "" THEN 0
            ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))

(* Numbers of 32 bits with an optional sign *)
Unsigned(s) ==      \* the digits without zeros in front of them
  LET d == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN From(s, 2) ELSE s
      k == ScanOver(d, {"0"}, 1)
  IN  IF k > Len(d) THEN (IF d = "" THEN "" ELSE "0") ELSE From(d, k)
Most == "2147483647"
RECURSIVE AtMost(_, _, _)       \* the digits of a, from i on, are not more than those of b
AtMost(a, b, i) ==
  i > Len(a) \/ DigitVal(Ch(a, i)) < DigitVal(Ch(b, i)) \/ (Ch(a, i) = Ch(b, i) /\ AtMost(a, b, i + 1))
IsNumber(s) ==
  LET d == Unsigned(s)
  IN  /\ Len(d) \in 1..10 /\ ScanOver(d, Digits, 1) > Len(d)
      /\ Len(d) < 10 \/ AtMost(d, Most, 1) \/ s = "-2147483648"
NumberOf(s) ==
  IF s = "-2147483648" THEN 0 - 2147483647 - 1
  ELSE IF Ch(s, 1) = "-" THEN 0 - NatOf(Unsigned(s)) ELSE NatOf(Unsigned(s))

RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN Ch("0123456789", n + 1)
             ELSE NatStr(n \div 10) \o Ch("0123456789", (n % 10) + 1)
===========================================================================
