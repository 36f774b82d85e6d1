----------------------------- MODULE TextInput ------------------------------
(* The notation for numbers, lists, rotations and random ranges, over sequences of characters.       *)
(*   number = ["-"] int ["." digits] ["e" ("+"|"-") (int "." digits | digits)]    int = 0 | 1-9 digits*)
EXTENDS Lib
DIG == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" >>
IsDig(c) == c \in Range(DIG)
ValOf(c) == CHOOSE d \in 0..9 : DIG[d + 1] = c
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE ""
RECURSIVE Skip(_, _), Digs(_, _)
Skip(s, i) == IF At(s, i) = " " THEN Skip(s, i + 1) ELSE i
Digs(s, i) == IF IsDig(At(s, i)) THEN Digs(s, i + 1) ELSE i          \* the first place that is no digit
(* each reader gives the place after what it reads, or 0 *)
ReadDigits(s, i) == IF i > 0 /\ IsDig(At(s, i)) THEN Digs(s, i) ELSE 0
ReadInt(s, i) == IF i = 0 \/ ~IsDig(At(s, i)) THEN 0 ELSE IF At(s, i) = "0" THEN i + 1 ELSE Digs(s, i)
ReadC(s, i, c) == IF i > 0 /\ At(s, i) = c THEN i + 1 ELSE 0
OrElse(a, b) == IF a > 0 THEN a ELSE b
ReadFloat(s, i) == ReadDigits(s, ReadC(s, ReadInt(s, i), "."))
ReadUnsigned(s, i) == OrElse(ReadFloat(s, i), ReadInt(s, i))
ReadSigned(s, i) == OrElse(ReadUnsigned(s, ReadC(s, i, "-")), ReadUnsigned(s, i))
ReadExp(s, i) == LET e == ReadC(s, i, "e")  g == OrElse(ReadC(s, e, "+"), ReadC(s, e, "-")) IN OrElse(ReadFloat(s, g), ReadDigits(s, g))
ReadNumber(s, i) == LET a == ReadSigned(s, IF i = 0 THEN 0 ELSE Skip(s, i)) IN IF a = 0 THEN 0 ELSE OrElse(ReadExp(s, a), a)
IsNumber(s) == ReadNumber(s, 1) = Len(s) + 1
RECURSIVE ReadRest(_, _)
ReadRest(s, i) == LET j == IF i = 0 THEN 0 ELSE Skip(s, i) IN
   IF j = 0 THEN 0 ELSE IF At(s, j) = "," THEN ReadRest(s, ReadNumber(s, j + 1)) ELSE ReadC(s, j, "]")
ReadList(s, i) == LET a == ReadC(s, IF i = 0 THEN 0 ELSE Skip(s, i), "[") IN ReadRest(s, ReadNumber(s, a))
Whole(s, i) == i > 0 /\ Skip(s, i) = Len(s) + 1
IsList(s) == Whole(s, ReadList(s, 1))
RECURSIVE ReadWord(_, _)
ReadWord(s, w) == IF w = << >> THEN 1 ELSE LET i == ReadWord(s, SubSeq(w, 1, Len(w) - 1)) IN ReadC(s, i, w[Len(w)])
ReadMark(s, i, c) == IF i = 0 THEN 0 ELSE ReadC(s, Skip(s, i), c)
IsTurn(s) == At(s, 1) = "r" /\ At(s, 2) \in { "x", "y", "z" } /\ Whole(s, ReadNumber(s, ReadC(s, 3, ":")))
IsRu(s) == Whole(s, ReadList(s, ReadMark(s, ReadNumber(s, ReadWord(s, << "r", "u", ":" >>)), ":")))
IsRange(s) == Whole(s, ReadNumber(s, ReadMark(s, ReadNumber(s, ReadWord(s, << "r", "a", "n", "d", ":" >>)), ":")))
(* ---- values, in thousandths; the exponent must be whole ---- *)
RECURSIVE Dec(_, _, _, _)
Dec(s, i, j, acc) == IF i = j THEN acc ELSE Dec(s, i + 1, j, 10 * acc + ValOf(s[i]))
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
Value(s) ==     \* of a number with a whole exponent
  LET neg == At(s, 1) = "-"
      i == IF neg THEN 2 ELSE 1
      a == ReadInt(s, i)
      b == IF At(s, a) = "." THEN Digs(s, a + 1) ELSE a
      frac == IF b > a THEN b - a - 1 ELSE 0
      m == IF b > a THEN Dec(s, a + 1, b, Dec(s, i, a, 0)) ELSE Dec(s, i, a, 0)
      ex == IF At(s, b) = "e" THEN Dec(s, b + 2, Len(s) + 1, 0) * (IF s[b + 1] = "-" THEN -1 ELSE 1) ELSE 0
      e == 3 - frac + ex
      v == IF e >= 0 THEN m * P10(e) ELSE m \div P10(-e)
  IN IF neg THEN -v ELSE v
(* half angle functions in 1/1024 at k quarter turns *)
CosQ(k) == LET r == k % 8 IN CASE r = 0 -> 1024 [] r \in {1, 7} -> 724 [] r \in {2, 6} -> 0 [] r \in {3, 5} -> -724 [] OTHER -> -1024
SinQ(k) == CosQ(k - 2)
=============================================================================
