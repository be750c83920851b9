--------------------------------- MODULE Words ---------------------------------
(***************************************************************************)
(* The operators of Native.tla that Java evaluates, held against what they  *)
(* are meant to be: on small numbers against TLA+ arithmetic, at the edges  *)
(* of the word and on doubles against laws.                                 *)
(***************************************************************************)
EXTENDS Native, Integers, Sequences, FiniteSets

VARIABLES a, b
N == 36
Init == a \in -N .. N /\ b = -N
Next == b < N /\ b' = b + 1 /\ UNCHANGED a

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Quo(x, y) == Sgn(x) * Sgn(y) * (Abs(x) \div Abs(y))
Rem(x, y) == x - y * Quo(x, y)
RECURSIVE Pow(_, _)
Pow(x, y) == IF y = 0 THEN 1 ELSE x * Pow(x, y - 1)
A == Num(a)
B == Num(b)

Small_ ==
    /\ Small(A) = a /\ IsSmall(A)
    /\ IAdd(A, B) = Num(a + b) /\ ISub(A, B) = Num(a - b) /\ IMul(A, B) = Num(a * b)
    /\ IDiv(A, B) = (IF b = 0 THEN "!" ELSE Num(Quo(a, b)))
    /\ IRem(A, B) = (IF b = 0 THEN "!" ELSE Num(Rem(a, b)))
    /\ ILt(A, B) = (a < b)
    /\ ILow8(A) = a % 256
    /\ (b \in 0 .. 5 => IPow(A, B) = Num(Pow(a, b)))
    /\ (a >= 0 /\ b \in 0 .. 20 => IShl(A, B) = Num(a * Pow(2, b)) /\ IShr(A, B) = Num(a \div Pow(2, b)))
    /\ (b < 0 \/ b > 63 => IShl(A, B) = "!" /\ IShr(A, B) = "!")

(* numbers near the edges of the word *)
Max == "9223372036854775807"
Min == "-9223372036854775808"
Near == {IAdd(Min, Num(k)) : k \in 0 .. 3} \cup {ISub(Max, Num(k)) : k \in 0 .. 3} \cup {"4611686018427387904", "-4611686018427387904", "3037000499", "3037000500", "4294967296", "2147483648", "-2147483649", A}
IPow_(n) == IF n = 63 THEN "!" ELSE IPow("2", Num(n))
Fits(x) == x # "!"
Edges == \A x \in Near :
    /\ (Fits(IAdd(x, B)) => ISub(IAdd(x, B), B) = x)
    /\ (Fits(ISub(x, B)) => IAdd(ISub(x, B), B) = x)
    /\ IAdd(x, B) = IAdd(B, x) /\ IMul(x, B) = IMul(B, x)
    /\ (b # 0 /\ Fits(IMul(x, B)) => IDiv(IMul(x, B), B) = x /\ IRem(IMul(x, B), B) = "0")
    /\ (b # 0 /\ Fits(IDiv(x, B)) => IAdd(IMul(IDiv(x, B), B), IRem(x, B)) = x)
    /\ (b = 1 => (Fits(IAdd(x, B)) <=> x # Max))
    /\ (b = -1 => (Fits(IAdd(x, B)) <=> x # Min) /\ (Fits(IMul(x, B)) <=> x # Min) /\ (Fits(IDiv(x, B)) <=> x # Min))
    /\ (b \in 0 .. 36 => /\ ~ILt(IShr(x, B), "0") \/ b = 0
                         /\ IShr(IShr(x, B), "1") = IShr(x, Num(b + 1))
                         /\ (ILt(x, "0") /\ b > 0 => IShr(x, B) = IAdd(ISub(IDiv(ISub(x, IRem(x, IPow("2", B))), IPow("2", B)), IF IRem(x, IPow("2", B)) = "0" THEN "0" ELSE "1"), IPow_(64 - b))))
    /\ I32(x) = (~ILt(x, "-2147483648") /\ ILt(x, "2147483648"))
(* 2^63 is not a number of the word: the shift by one bit is left to Small_ *)
EdgesOk == b = 1 \/ Edges

(* doubles: small integers and halves are exact *)
F(x) == FParse(x)
FA == F(A \o ".0")
FB == F(B \o ".0")
Floats ==
    /\ FAdd(FA, FB) = F(Num(a + b) \o ".0") \/ a + b = 0
    /\ FSub(FA, FB) = F(Num(a - b) \o ".0") \/ a - b = 0
    /\ FMul(FA, FB) = F(Num(a * b) \o ".0") \/ a * b = 0
    /\ (b # 0 => FMul(FDiv(FA, FB), FB) = FA \/ Rem(a, b) # 0 \/ a = 0)
    /\ (b # 0 => FRem(FA, FB) = F(Num(Rem(a, b)) \o ".0") \/ Rem(a, b) = 0)
    /\ FLt(FA, FB) = (a < b) /\ FLe(FA, FB) = (a <= b) /\ FEq(FA, FB) = (a = b)
    /\ ~FLt("nan", FA) /\ ~FLe(FA, "nan") /\ ~FEq("nan", "nan")
    /\ FEq(F("0.0"), F("-0.0")) /\ F("0.0") # F("-0.0")
    /\ FAdd(F("0.1"), F("0.2")) = F("0.30000000000000004")
    /\ F("1.0") = "3ff0000000000000" /\ F("-2.5") = "c004000000000000"

Texts ==
    LET s == <<65, 233, 128128, 46, 48 + (Abs(a) % 10)>>
    IN /\ Codes(Text(s)) = s /\ Slice(s, 2, 4) = Text(SubSeq(s, 2, 4)) /\ Utf8(s) = "41c3a9f09f92802e3" \o Num((Abs(a) % 10))
       /\ StrCat(<<Text(s), A>>) = Text(s) \o A /\ Contains(Text(s), Slice(s, 2, 3)) /\ Size("abc") = 3
       /\ IParse(A, 10) = A /\ IParse("ff", 16) = "255" /\ IParse("9223372036854775808", 10) = "!" /\ IParse(Min, 10) = Min
       /\ IHex32("1f480") = "128128"
==============================================================================
