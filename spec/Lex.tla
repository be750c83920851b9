--------------------------------- MODULE Lex ---------------------------------
(***************************************************************************)
(* From source text (a sequence of code points) to classified tokens.       *)
(*                                                                          *)
(* LexInit/LexNext is a transition system whose state is a position in the  *)
(* text and the tokens read so far; one transition reads one token (or      *)
(* finds the end of the text or a lexical error).                           *)
(*                                                                          *)
(* token: [k: kind, s: text, b: index of first code point, n: length,       *)
(*         l: line, c: column]                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Native, TLC

NL == 10  TAB == 9  CR == 13  SP == 32
HASH == 35  QUOT == 34  APOS == 39  BSL == 92  LBRACE == 123  RBRACE == 125
LPAR == 40  RPAR == 41  COMMA == 44  AMP == 38  STAR == 42  USC == 95
DOT == 46  COLON == 58  MINUS == 45  BOM == 65279

IsWs(c)    == c \in {SP, TAB, CR, NL}
IsDelim(c) == c \in {LBRACE, RBRACE, LPAR, RPAR, COMMA, NL, AMP, STAR}
IsQuote(c) == c \in {QUOT, APOS}
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
IsHex(c)   == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
IsOct(c)   == c \in 48..55
IsBin(c)   == c \in {48, 49}

(* the code point at p, 0 past the end of the text *)
At(src, p) == IF p <= Len(src) THEN src[p] ELSE 0

----------------------------------------------------------------------------
(* Classification of a word                                                 *)

Keywords == {"mut", "return", "unreachable", "if", "elif", "else", "while",
             "external", "export", "noop", "break", "continue", "import",
             "namespace"}
WordOpers == {"mod", "not", "is", "isnt", "and", "or", "xor"}
SymOpers  == {"=", "+", "-", "*", "/", "<", ">", "^", ":=", "<=", ">=", "<<", ">>"}
Reserved  == Keywords \cup WordOpers \cup {"Infinity", "NaN", "true", "false"}
BuiltinTypes == {"Int", "Float", "Bool", "Rune", "Str", "Void"}

(* digits with single, inner underscores *)
Digits(w, a, b, Ok(_)) ==
    /\ a <= b
    /\ w[a] # USC /\ w[b] # USC
    /\ \A i \in a..b : Ok(w[i]) \/ (w[i] = USC /\ w[i+1] # USC)

IsIntWord(w) ==
    IF Len(w) >= 3 /\ w[1] = 48 /\ ~IsDigit(w[2])
    THEN CASE w[2] = 120 -> Digits(w, 3, Len(w), IsHex)
           [] w[2] = 98  -> Digits(w, 3, Len(w), IsBin)
           [] w[2] = 111 -> Digits(w, 3, Len(w), IsOct)
           [] OTHER -> FALSE
    ELSE Digits(w, IF w[1] = MINUS THEN 2 ELSE 1, Len(w), IsDigit)

DotPos(w) == LET D == {i \in DOMAIN w : w[i] = DOT}
             IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

IsFloatWord(w, s) ==
    \/ s \in {"NaN", "Infinity", "-Infinity"}
    \/ LET a == IF w[1] = MINUS THEN 2 ELSE 1
           d == DotPos(w)
       IN /\ d > a
          /\ Digits(w, a, d - 1, IsDigit)
          /\ d < Len(w)
          /\ \A i \in (d+1)..Len(w) : IsDigit(w[i])

IsRuneWord(w) ==
    /\ Len(w) >= 3 /\ w[1] = APOS /\ w[Len(w)] = APOS
    /\ \/ Len(w) = 3
       \/ Len(w) \in 4..12 /\ w[2] = BSL

IsStrWord(w) == Len(w) >= 2 /\ w[1] = QUOT /\ w[Len(w)] = QUOT

(* [A-Za-z][A-Za-z0-9_.]* without a final dot, optionally followed by a colon *)
IsIdentWord(w) ==
    LET n == IF w[Len(w)] = COLON THEN Len(w) - 1 ELSE Len(w)
    IN /\ IsAlpha(w[1])
       /\ \A i \in 2..n : IsAlnum(w[i]) \/ w[i] = USC \/ (w[i] = DOT /\ i < Len(w))

(* <<kind, number of trailing code points which are not part of the token>> *)
Classify(w, s) ==
    CASE Len(w) = 1 /\ s \in SymOpers -> <<s, 0>>
      [] s \in Keywords -> <<s, 0>>
      [] s \in WordOpers \cup SymOpers -> <<s, 0>>
      [] IsIntWord(w) -> <<"int", 0>>
      [] IsFloatWord(w, s) -> <<"float", 0>>
      [] s \in {"true", "false"} -> <<"bool", 0>>
      [] IsRuneWord(w) -> <<"rune", 0>>
      [] IsStrWord(w) -> <<"str", 0>>
      [] IsIdentWord(w) ->
           LET dot == DotPos(w) # 0
           IN IF w[Len(w)] # COLON
              THEN <<IF dot THEN "dotid" ELSE "id", 0>>
              ELSE IF dot \/ Text(SubSeq(w, 1, Len(w)-1)) \in (Reserved \cup BuiltinTypes)
                   THEN <<"unk", 0>>
                   ELSE <<"newid", 1>>
      [] OTHER -> <<"unk", 0>>

DelimKind(c) == CASE c = LBRACE -> "{" [] c = RBRACE -> "}" [] c = LPAR -> "("
                  [] c = RPAR -> ")" [] c = COMMA -> "," [] c = NL -> "nl"
                  [] c = AMP -> "&" [] c = STAR -> "*"

----------------------------------------------------------------------------
(* Scanning                                                                 *)

RECURSIVE SkipWs(_, _)
SkipWs(src, p) == IF p <= Len(src) /\ src[p] \in {SP, TAB, CR} THEN SkipWs(src, p+1) ELSE p

(* index of the quote closing the one before p, 0 if there is none *)
RECURSIVE CloseQuote(_, _, _)
CloseQuote(src, p, q) ==
    IF p > Len(src) THEN 0
    ELSE IF src[p] = BSL /\ At(src, p+1) \in {BSL, q} THEN CloseQuote(src, p+2, q)
    ELSE IF src[p] = q THEN p
    ELSE CloseQuote(src, p+1, q)

(* index after the word containing p; 0 if one of its quotes is not closed *)
RECURSIVE WordEnd(_, _)
WordEnd(src, p) ==
    IF p > Len(src) THEN p
    ELSE LET c == src[p]
         IN IF IsWs(c) \/ IsDelim(c) \/ c = HASH THEN p
            ELSE IF IsQuote(c)
            THEN LET q == CloseQuote(src, p+1, c)
                 IN IF q = 0 THEN 0 ELSE WordEnd(src, q+1)
            ELSE WordEnd(src, p+1)

RECURSIVE LineEnd(_, _)
LineEnd(src, p) == IF p > Len(src) \/ src[p] = NL THEN p ELSE LineEnd(src, p+1)

(* Block comment: <<"end", index after it>>, <<"nested", index of the second
   bracket>> or <<"open">> *)
RECURSIVE BlockEnd(_, _)
BlockEnd(src, p) ==
    IF p > Len(src) THEN <<"open", 0>>
    ELSE IF src[p] = HASH /\ At(src, p+1) = RBRACE THEN <<"end", p+2>>
    ELSE IF src[p] = HASH /\ At(src, p+1) = LBRACE THEN <<"nested", p+1>>
    ELSE BlockEnd(src, p+1)

Newlines(src, a, b) == {i \in a..b : src[i] = NL}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

----------------------------------------------------------------------------
(* st: p next index, ln line of p, z index of the last newline before p,    *)
(*     toks, done, err = <<>> or <<code, line, column>>, bom                *)

LexInit(src) ==
    LET bom == Len(src) >= 1 /\ src[1] = BOM
    IN [p |-> IF bom THEN 2 ELSE 1, ln |-> 1, z |-> IF bom THEN 1 ELSE 0,
        toks |-> <<>>, done |-> FALSE, err |-> <<>>, bom |-> bom]

LexFail(st, code, src, at) ==
    LET N == Newlines(src, st.p, at)
        ln == st.ln + Cardinality(N)
        z == IF N = {} THEN st.z ELSE MaxOf(N)
    IN [st EXCEPT !.done = TRUE, !.err = <<code, ln, at - z>>]

(* add token of the text a..b-1; m code points at its end are not in it *)
LexTake(st, src, kind, a, b, m) ==
    LET N == Newlines(src, a, b-1)
        t == [k |-> kind, s |-> Slice(src, a, b-1-m), b |-> a, n |-> b - a - m,
              l |-> st.ln, c |-> a - st.z]
    IN [st EXCEPT !.p = b, !.ln = st.ln + Cardinality(N),
                  !.z = IF N = {} THEN st.z ELSE MaxOf(N),
                  !.toks = Append(st.toks, t)]

LexNext(src, st0) ==
    LET p == SkipWs(src, st0.p)
        st == [st0 EXCEPT !.p = p]
        c == At(src, p)
    IN CASE p > Len(src) -> [st EXCEPT !.done = TRUE]
         [] c = HASH ->
              IF At(src, p+1) \in {SP, TAB}
              THEN LexTake(st, src, "comment", p, LineEnd(src, p), 0)
              ELSE IF At(src, p+1) = LBRACE
              THEN LET e == BlockEnd(src, p+2)
                   IN CASE e[1] = "end" -> LexTake(st, src, "comment", p, e[2], 0)
                        [] e[1] = "nested" -> LexFail(st, "NestedComment", src, e[2])
                        [] OTHER -> LexFail(st, "NoClosingComment", src, p)
              ELSE LexFail(st, "InvalidComment", src, p)
         [] IsDelim(c) -> LexTake(st, src, DelimKind(c), p, p+1, 0)
         [] OTHER ->
              LET e == WordEnd(src, p)
              IN IF e = 0 THEN LexFail(st, "NoClosingQuote", src, p)
                 ELSE LET k == Classify(SubSeq(src, p, e-1), Slice(src, p, e-1))
                      IN LexTake(st, src, k[1], p, e, k[2])

(* one line: up to and including the next token that is a line end *)
RECURSIVE LexLine(_, _)
LexLine(src, st) ==
    LET t == LexNext(src, st)
    IN IF t.done \/ t.toks[Len(t.toks)].k = "nl" THEN t ELSE LexLine(src, t)

RECURSIVE LexRun(_, _)
LexRun(src, st) == IF st.done THEN st ELSE LexRun(src, TLCEval(LexNext(src, st)))
LexAll(src) == LexRun(src, LexInit(src))

----------------------------------------------------------------------------
(* What must hold of the tokens of any text (checked by TokensInOrder of Skull.tla)          *)

(* tokens are in order, disjoint and inside the text *)
TokensOrdered(src, toks) ==
    /\ \A i \in DOMAIN toks : toks[i].b >= 1 /\ toks[i].n >= 1
                              /\ toks[i].b + toks[i].n - 1 <= Len(src)
    /\ \A i \in DOMAIN toks : i = 1 \/ toks[i-1].b + toks[i-1].n <= toks[i].b
(* nothing but blanks (and the colon of a declaration) lies between tokens *)
NothingLost(src, toks, upto) ==
    LET bom == IF Len(src) >= 1 /\ src[1] = BOM THEN {1} ELSE {}
        inTok == UNION {t.b .. (t.b + t.n - 1) : t \in {toks[i] : i \in DOMAIN toks}}
        colons == {t.b + t.n : t \in {toks[i] : i \in {j \in DOMAIN toks : toks[j].k = "newid"}}}
    IN \A i \in (1..upto) \ (inTok \cup colons \cup bom) : src[i] \in {SP, TAB, CR}
(* a location is the number of lines before and of code points since *)
LocationRight(src, t) ==
    LET N == Newlines(src, 1, t.b - 1)
        start == IF N # {} THEN MaxOf(N) ELSE IF src[1] = BOM THEN 1 ELSE 0
    IN t.l = 1 + Cardinality(N) /\ t.c = t.b - start
==============================================================================
