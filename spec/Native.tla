------------------------------- MODULE Native -------------------------------
(***************************************************************************)
(* Arithmetic that TLC cannot evaluate by itself: 64 bit two's complement   *)
(* integers, IEEE-754 binary64 numbers and conversions between sequences of *)
(* code points and strings.                                                 *)
(*                                                                          *)
(* An integer value is written as its decimal numeral ("-12"), a float as   *)
(* the 16 hexadecimal digits of its bit pattern ("3ff0000000000000", any    *)
(* NaN is "nan").  "!" stands for "no 64 bit result" (overflow, division by *)
(* zero, shift out of range, ...).                                          *)
(*                                                                          *)
(* Every operator is overridden by the method of the same name in           *)
(* java/Native.java; the bodies below only give the arity.  The meaning is  *)
(* stated in the comments, and Words.tla checks the operators on integers   *)
(* against their mathematical definition on small numbers, and that those   *)
(* at the edge of the word have no result exactly when they do not fit.     *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

Text(codes)      == "!"   \* the string with these code points
Slice(s, a, b)   == "!"   \* Text(SubSeq(s, a, b)), without building the sequence
Codes(str)       == <<>>  \* the code points of a string
Utf8(codes)      == "!"   \* hexadecimal UTF-8 encoding of code points
StrCat(seq)      == "!"   \* concatenation of a sequence of strings
Contains(a, b)   == FALSE \* the string b is a part of the string a
Size(str)        == 0     \* length of a string
Split(str)       == <<>>  \* the parts of a string between its dots
Listed(set)      == <<>>  \* the elements of a set, in some fixed order
Num(n)           == "!"   \* decimal numeral of a TLC integer
Small(a)         == 0     \* TLC integer for a numeral in -2^31..2^31-1
IsSmall(a)       == FALSE \* the numeral fits a TLC integer

ReadInputs(file) == <<>>  \* what the driver wrote to this JSON file; read once
Quote(str)       == "!"   \* str as it stands in a JSON string
Emit(str)        == TRUE  \* write a line for the driver

IParse(str, base) == "!"  \* value of digits in base; "!" if not in 64 bits
IHex32(str) == "!"        \* value of at most 8 hexadecimal digits
IAdd(a, b) == "!"         \* a + b, "!" if not representable
ISub(a, b) == "!"
IMul(a, b) == "!"
IDiv(a, b) == "!"         \* truncated division; "!" for b = 0 or overflow
IRem(a, b) == "!"         \* remainder with the sign of a; "!" likewise
IShl(a, b) == "!"         \* a * 2^b if 0 <= b < 64 and no signed or unsigned overflow
IShr(a, b) == "!"         \* logical shift right, 0 <= b < 64
IPow(a, b) == "!"         \* a to the power b; open where b is negative
ILt(a, b)  == FALSE
ILow8(a)   == 0           \* a mod 256 (what the operating system keeps of an exit status)
I32(a)     == TRUE        \* a fits a C int

FParse(str) == "!"        \* nearest binary64 of a decimal numeral, "!" if it overflows or underflows
FAdd(a, b) == "!"
FSub(a, b) == "!"
FMul(a, b) == "!"
FDiv(a, b) == "!"
FRem(a, b) == "!"         \* C fmod
FPow(a, b) == "!"         \* C pow, "?" when the result is not exact
FLt(a, b)  == FALSE       \* ordered comparisons: FALSE on NaN
FLe(a, b)  == FALSE
FEq(a, b)  == FALSE
=============================================================================
