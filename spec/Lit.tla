--------------------------------- MODULE Lit ---------------------------------
(***************************************************************************)
(* The value of a literal: [ok, v, code, args, odd].  If ok is FALSE, code  *)
(* and args describe the diagnostic.  odd marks code points that exist in   *)
(* no encoding, about which nothing is said.                                *)
(***************************************************************************)
EXTENDS Parse

LitOk(v) == [ok |-> TRUE, v |-> v, code |-> "", args |-> <<>>, odd |-> FALSE]
LitBad(code, args) == [ok |-> FALSE, v |-> "", code |-> code, args |-> args, odd |-> FALSE]

NoUnderscores(w) == SelectSeq(w, LAMBDA c : c # USC)

IntLit(w, s) ==
    LET base == IF Len(w) >= 3 /\ w[1] = 48
                THEN CASE w[2] = 98 -> 2 [] w[2] = 111 -> 8 [] w[2] = 120 -> 16 [] OTHER -> 10
                ELSE 10
        v == IParse(Text(NoUnderscores(IF base = 10 THEN w ELSE SubSeq(w, 3, Len(w)))), base)
    IN IF v = "!" THEN LitBad("Overflow", <<s>>) ELSE LitOk(v)

FloatLit(w, s) ==
    LET v == FParse(Text(NoUnderscores(w)))
    IN IF v = "!" THEN LitBad("Overflow", <<s>>) ELSE LitOk(v)

----------------------------------------------------------------------------
(* Escape sequences                                                         *)

Simple == [c \in {92, 34, 39, 48, 101, 116, 114, 110} |->
    CASE c = 48 -> "0" [] c = 101 -> "27" [] c = 116 -> "9" [] c = 114 -> "13"
      [] c = 110 -> "10" [] OTHER -> Num(c)]

RECURSIVE HexEnd(_, _, _)
HexEnd(w, i, n) == IF n < 8 /\ i <= Len(w) /\ IsHex(w[i]) THEN HexEnd(w, i+1, n+1) ELSE i

(* the character written at index i: [v: numeral, next: index after it, bad] *)
Unescape(w, i) ==
    IF w[i] # BSL THEN [v |-> Num(w[i]), next |-> i + 1, bad |-> ""]
    ELSE LET c == At(w, i+1)
             e == HexEnd(w, i+2, 0)
             d == At(w, i+2)
         IN IF c \in DOMAIN Simple THEN [v |-> Simple[c], next |-> i + 2, bad |-> ""]
            ELSE IF c = 120 /\ e > i + 2
            THEN [v |-> IHex32(Slice(w, i+2, e-1)), next |-> e, bad |-> ""]
            ELSE [v |-> "", next |-> i,
                  bad |-> Text(IF c = 120 /\ ~IsQuote(d) THEN <<BSL, c, d>> ELSE <<BSL, c>>)]

Encodable(v) == ILt(v, "1114112") /\ ~(~ILt(v, "55296") /\ ILt(v, "57344"))
Surrogate(v) == ~ILt(v, "55296") /\ ILt(v, "57344")
(* too large even for the six byte form of the encoding *)
Hopeless(v) == ~ILt(v, "2147483648") \/ Surrogate(v)

RuneLit(w) ==
    LET u == Unescape(w, 2)
    IN IF w[2] < 32 \/ w[2] = 127 THEN LitBad("ControlChar", <<>>)
       ELSE IF u.bad # "" THEN LitBad("BadEscape", <<u.bad>>)
       ELSE IF u.next # Len(w) THEN LitBad("RuneTooLong", <<>>)
       ELSE IF Hopeless(u.v) THEN LitBad("IllegalSeq", <<>>)
       ELSE [LitOk(u.v) EXCEPT !.odd = ~Encodable(u.v)]

(* <<"ok", characters>> or <<"bad", escape>> *)
RECURSIVE StrChars(_, _, _)
StrChars(w, i, acc) ==
    IF i >= Len(w) THEN <<"ok", acc>>
    ELSE LET u == Unescape(w, i)
         IN IF u.bad # "" THEN <<"bad", u.bad>> ELSE StrChars(w, u.next, Append(acc, u.v))

(* a string ends at its first NUL *)
Upto0(cs) == LET Z == {i \in DOMAIN cs : cs[i] = "0"}
             IN IF Z = {} THEN cs ELSE SubSeq(cs, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)

StrLit(w) ==
    LET r == StrChars(w, 2, <<>>)
        cs == Upto0(r[2])
    IN IF r[1] = "bad" THEN LitBad("BadEscape", <<r[2]>>)
       ELSE IF \E i \in DOMAIN cs : Hopeless(cs[i]) THEN LitBad("IllegalSeq", <<>>)
       ELSE IF \E i \in DOMAIN cs : ~Encodable(cs[i]) THEN [LitOk("") EXCEPT !.odd = TRUE]
       ELSE LitOk(Utf8([i \in DOMAIN cs |-> Small(cs[i])]))

LitTy(k) == CASE k = "int" -> "Int" [] k = "float" -> "Float" [] k = "bool" -> "Bool"
              [] k = "rune" -> "Rune" [] k = "str" -> "Str"

(* src is needed because a token holds only the text of the literal *)
Literal(src, t) ==
    LET w == SubSeq(src, t.b, t.b + t.n - 1)
    IN CASE t.k = "int" -> IntLit(w, t.s)
         [] t.k = "float" -> FloatLit(w, t.s)
         [] t.k = "bool" -> LitOk(t.s = "true")
         [] t.k = "rune" -> RuneLit(w)
         [] t.k = "str" -> StrLit(w)
==============================================================================
