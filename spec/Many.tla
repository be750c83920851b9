--------------------------------- MODULE Many ---------------------------------
(***************************************************************************)
(* Texts in which something is there n times and the i-th of them is        *)
(* special: of another type, missing, doubled, declared before, ...         *)
(* What holds for a handful holds for many, at whatever place.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Native

Ns == (1..9) \cup {12, 16, 17, 33, 65}
Is(n) == {i \in {1, 2, 3, 5, 9, n - 1, n} : i >= 1 /\ i <= n}

RECURSIVE Cat(_)
Cat(s) == StrCat(s)
(* f(1), f(2), ..., f(n), with a text in between *)
RECURSIVE Each(_, _, _, _)
Each(F(_), a, n, sep) == IF a > n THEN "" ELSE IF a = n THEN F(a) ELSE StrCat(<<F(a), sep, Each(F, a + 1, n, sep)>>)
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)

Ty(j) == CASE j % 5 = 1 -> "Int" [] j % 5 = 2 -> "Float" [] j % 5 = 3 -> "Bool" [] j % 5 = 4 -> "Str" [] OTHER -> "Rune"
Va(j) == CASE j % 5 = 1 -> Num(j) [] j % 5 = 2 -> Num(j) \o ".5" [] j % 5 = 3 -> (IF j % 2 = 0 THEN "true" ELSE "false")
           [] j % 5 = 4 -> StrCat(<<"\"s", Num(j), "\"">>) [] OTHER -> StrCat(<<"'", Slice(Codes("abcdefghijklmnopqrstuvwxyz"), 1 + (j % 26), 1 + (j % 26)), "'">>)
(* shows the value of an expression of the type Ty(j) *)
Put(j, e) == StrCat(<<CASE j % 5 = 1 -> "pi(" [] j % 5 = 2 -> "pf(" [] j % 5 = 3 -> "pb(" [] j % 5 = 4 -> "ps(" [] OTHER -> "pr(", e, ")\n">>)
N(p, j) == p \o Num(j)

Shows == "external pi(x: Int)\nexternal pf(x: Float)\nexternal pb(x: Bool)\nexternal pr(x: Rune)\nexternal ps(x: Str)\nexternal gi(x: Int) Int\n"

Kinds == {"params", "same", "vars", "funcs", "elifs", "nest", "sum", "ns", "alias", "refs", "name", "str", "rets", "calls", "lines", "not", "parens",
          "exts", "writes", "loops", "deep", "strs", "kinds"}
Faults(k) ==
    {"none"} \cup
    CASE k = "params" -> {"type", "few", "many", "twice", "use"}
      [] k = "same" -> {"type", "few", "many"}
      [] k = "vars" -> {"type", "dup", "undef", "const", "early"}
      [] k = "funcs" -> {"dup", "undef", "type"}
      [] k = "elifs" -> {"type", "else"}
      [] k = "nest" -> {"gone", "shadow"}
      [] k = "sum" -> {"type", "undef"}
      [] k = "ns" -> {"undef", "dup", "kind"}
      [] k = "alias" -> {"type", "undef"}
      [] k = "refs" -> {"few", "many", "type"}
      [] k = "name" -> {"undef"}
      [] k = "str" -> {"escape", "end"}
      [] k = "rets" -> {"type", "void"}
      [] k = "calls" -> {"type", "few"}
      [] k = "lines" -> {"type", "undef", "word"}
      [] k = "not" -> {"type"}
      [] k = "parens" -> {"open", "close"}
      [] k = "exts" -> {"dup", "undef"}
      [] k = "writes" -> {"const", "type"}
      [] k = "loops" -> {"break", "continue"}
      [] k = "deep" -> {"else", "extra"}
      [] k = "strs" -> {"same"}
      [] k = "kinds" -> {"redefine"}
      [] OTHER -> {}

Drop(F(_), n, i, sep) == \* F(1) .. F(n) without the i-th
    LET l == Each(F, 1, i - 1, sep) r == Each(F, i + 1, n, sep) IN IF i = 1 THEN r ELSE IF i = n THEN l ELSE StrCat(<<l, sep, r>>)

Body(k, n, i, f) ==
    CASE k = "params" -> \* parameters of all types
           LET P(j) == StrCat(<<N("p", IF f = "twice" /\ j = i THEN 1 ELSE j), ": ", Ty(j)>>)
               U(j) == Put(j, N("p", IF f = "use" /\ j = i THEN j + 5 * n ELSE j))
               A(j) == IF f = "type" /\ j = i THEN Va(j + 1) ELSE IF f = "many" /\ j = i THEN StrCat(<<Va(j), ", ", Va(j)>>) ELSE Va(j)
           IN StrCat(<<"f(", Each(P, 1, n, ", "), ") Int {\n", Each(U, 1, n, ""), "return ", Num(n), " }\npi(f(",
                       IF f = "few" THEN Drop(A, n, i, ", ") ELSE Each(A, 1, n, ", "), "))\n">>)
      [] k = "same" -> \* parameters of one type; what is shown depends on their order
           LET P(j) == N("p", j) \o ": Int"
               U(j) == StrCat(<<Num(j), " * ", N("p", j)>>)
               A(j) == IF f = "type" /\ j = i THEN "1.5" ELSE IF f = "many" /\ j = i THEN StrCat(<<N("v", j), ", 1">>) ELSE N("v", j)
               V(j) == StrCat(<<N("v", j), " := gi(", Num(j * j + i), ")\n">>)
           IN StrCat(<<"f(", Each(P, 1, n, ", "), ") Int { return ", Each(U, 1, n, " + "), " }\n", Each(V, 1, n, ""), "pi(f(",
                       IF f = "few" THEN Drop(A, n, i, ", ") ELSE Each(A, 1, n, ", "), "))\n">>)
      [] k = "vars" ->
           LET D(j) == CASE f = "type" /\ j = i -> StrCat(<<N("v", j), ": ", Ty(j), " = ", Va(j + 1), "\n">>)
                         [] f = "early" /\ j = i -> StrCat(<<Put(j, N("v", j)), N("v", j), " := ", Va(j), "\n">>)
                         [] j % 2 = 0 -> StrCat(<<N("v", j), ": ", Ty(j), " = ", Va(j), "\n">>)
                         [] OTHER -> StrCat(<<N("v", j), " := ", Va(j), "\n">>)
               U(j) == IF f = "undef" /\ j = i THEN Put(j, N("v", n + j)) ELSE Put(j, N("v", j))
           IN StrCat(<<Each(D, 1, n, ""), IF f = "dup" THEN StrCat(<<N("v", i), " := ", Va(i), "\n">>) ELSE "",
                       IF f = "const" THEN StrCat(<<N("v", i), " = ", Va(i), "\n">>) ELSE "", Each(U, 1, n, "")>>)
      [] k = "funcs" ->
           LET D(j) == StrCat(<<N("f", j), "() ", Ty(IF f = "type" /\ j = i THEN j + 1 ELSE j), " { return ", Va(j), " }\n">>)
               U(j) == Put(j, StrCat(<<N("f", IF f = "undef" /\ j = i THEN n + j ELSE j), "()">>))
           IN StrCat(<<Each(D, 1, n, ""), IF f = "dup" THEN D(i) ELSE "", Each(U, 1, n, "")>>)
      [] k = "elifs" -> \* the i-th condition is the first that holds
           LET B(j) == StrCat(<<IF j = 1 THEN "if " ELSE "elif ", IF f = "type" /\ j = i THEN "gi(" \o Num(i) \o ")" ELSE StrCat(<<"gi(", Num(i), ") is ", Num(j)>>),
                                " { pi(", Num(j), ") }\n">>)
           IN StrCat(<<Each(B, 1, n, ""), "else { pi(0) }\n", IF f = "else" THEN "else { pi(0) }\n" ELSE "", "pi(99)\n">>)
      [] k = "nest" -> \* variables of n blocks, one in the other
           LET O(j) == StrCat(<<"if gi(", Num(j), ") is ", Num(j), " {\n", N("v", j), " := gi(", Num(j), ")\n">>)
               U(j) == Put(1, N("v", j))
           IN StrCat(<<Each(O, 1, n, ""), IF f = "shadow" THEN N("v", i) \o " := 1\n" ELSE "", Each(U, 1, n, ""), Times("}\n", n - i + 1),
                       IF f = "gone" THEN U(i) ELSE IF i > 1 THEN U(i - 1) ELSE "", Times("}\n", i - 1)>>)
      [] k = "sum" ->
           LET O(j) == CASE f = "type" /\ j = i -> "1.5" [] f = "undef" /\ j = i -> "nope" [] j % 3 = 0 -> "gi(" \o Num(j) \o ")" [] j % 3 = 1 -> Num(j) [] OTHER -> "a"
               S(j) == IF j = 1 THEN O(j) ELSE StrCat(<<IF j = i THEN " * " ELSE IF j % 2 = 0 THEN " - " ELSE " + ", O(j)>>)
           IN StrCat(<<"mut a := 7\na = gi(a)\npi(", Each(S, 1, n, ""), ")\n">>)
      [] k = "ns" -> \* namespaces in namespaces
           LET O(j) == StrCat(<<"namespace ", N("n", j), " {\n", N("x", j), " := ", Va(j), "\n", N("f", j), "() ", Ty(j + 1), " { return ", Va(j + 1), " }\n">>)
               Q(j) == LET M(m) == N("n", m) IN Each(M, 1, j, ".")
               U(j) == IF f = "undef" /\ j = i THEN Put(j, StrCat(<<Q(j), ".", N("x", j + 1)>>))
                       ELSE IF f = "kind" /\ j = i THEN Put(j, StrCat(<<Q(j), ".", N("x", j), "()">>))
                       ELSE Put(j, StrCat(<<Q(j), ".", N("x", j)>>)) \o Put(j + 1, StrCat(<<Q(j), ".", N("f", j), "()">>))
           IN StrCat(<<Each(O, 1, n, ""), IF f = "dup" THEN N("x", n) \o " := 1\n" ELSE "", Times("}\n", n), Each(U, 1, n, "")>>)
      [] k = "alias" -> \* names for names of types
           LET D(j) == StrCat(<<N("T", j), " := ", IF f = "undef" /\ j = i THEN N("T", j + 1) ELSE IF j = 1 THEN "Int" ELSE N("T", j - 1), "\n">>)
               U(j) == StrCat(<<N("v", j), ": ", N("T", j), " = ", IF f = "type" /\ j = i THEN "1.5" ELSE Num(j), "\n", Put(1, N("v", j))>>)
           IN StrCat(<<Each(D, 1, n, ""), Each(U, 1, n, "")>>)
      [] k = "refs" -> \* references to references
           LET D(j) == StrCat(<<N("r", j), IF j = i THEN ": " \o Times("&", IF f = "type" THEN j + 1 ELSE j) \o "Int = " ELSE " := ", "&", IF j = 1 THEN "a" ELSE N("r", j - 1), "\n">>)
               V(j) == StrCat(<<N("d", j), " := *", IF j = n THEN N("r", n) ELSE N("d", j + 1), "\n">>)
               (* from the outermost in *)
               W(j) == V(n + 1 - j)
           IN StrCat(<<"a := gi(5)\n", Each(D, 1, n, ""), Each(W, 1, IF f = "few" THEN n - 1 ELSE n, ""),
                       IF f = "few" THEN Put(1, IF n = 1 THEN "r1" ELSE "d2") ELSE IF f = "many" THEN Put(1, "*d1") ELSE Put(1, "d1")>>)
      [] k = "name" -> \* long names that differ at one place
           LET A(c) == StrCat(<<Times("a", i - 1), c, Times("a", n - i)>>)
           IN StrCat(<<A("b"), " := 1\n", A("c"), " := 2\n", IF f = "undef" THEN "" ELSE A("d") \o " := 3\n", Put(1, A("b")), Put(1, A("c")), Put(1, A("d")),
                       A("f"), "() Int { return 4 }\n", Put(1, A("f") \o "()")>>)
      [] k = "str" ->
           LET A(c) == StrCat(<<"\"", Times("a", i - 1), c, Times("é", n - i), "\"">>)
           IN StrCat(<<Put(4, A(IF f = "escape" THEN "\\q" ELSE "\\n")), Put(4, A("\\x41")), Put(4, IF f = "end" THEN "\"" \o A("") ELSE A("")), Put(3, StrCat(<<A("b"), " is ", A("c")>>)),
                       Put(3, StrCat(<<A("b"), " is ", A("b")>>)), "mut s := ", A("b"), "\ns = ", A("\\\""), "\n", Put(4, "s")>>)
      [] k = "rets" ->
           LET B(j) == StrCat(<<"if gi(", Num(i), ") is ", Num(j), " { return ", IF f = "type" /\ j = i THEN "1.5 " ELSE IF f = "void" /\ j = i THEN "" ELSE Num(j), "}\n">>)
           IN StrCat(<<"f() Int {\n", Each(B, 1, n, ""), "return 0 }\n", Put(1, "f()")>>)
      [] k = "calls" -> \* f(f(f(1)))
           StrCat(<<"f(x: Int) Int { return x * 2 + 1 }\n", Put(1, StrCat(<<Times("f(", i - 1), IF f = "few" THEN "f() + " ELSE IF f = "type" THEN "f(true) + " ELSE "", Times("f(", n - i + 1), "3", Times(")", n)>>))>>)
      [] k = "lines" -> \* the place of a fault
           LET L(j) == IF j = i /\ f = "type" THEN Times(" ", n) \o "x := 1 + 1.5\n" ELSE IF j = i /\ f = "undef" THEN Times("\t", n) \o "pi(nope)\n"
                       ELSE IF j = i /\ f = "word" THEN Times("#{ é\n#}", n) \o "pi(1) 2\n"
                       ELSE CASE j % 4 = 1 -> "\n" [] j % 4 = 2 -> "# c\n" [] j % 4 = 3 -> "#{ c\n c #}\n" [] OTHER -> StrCat(<<"pi(", Num(j), ")\n">>)
           IN StrCat(<<Each(L, 1, n, ""), "pi(0)\n">>)
      [] k = "not" ->
           StrCat(<<"b := gi(", Num(i), ") is ", Num(i), "\nc := ", Times("not ", n), IF f = "type" THEN "1" ELSE "b", "\n", Put(3, "c"),
                    "d := gi(3)\ne := ", Times("- ", n), "d\n", Put(1, "e")>>)
      [] k = "parens" ->
           StrCat(<<Put(1, StrCat(<<Times("(", IF f = "open" THEN n + 1 ELSE n), "1", Times(" + 2)", i), Times(" * 3)", IF f = "close" THEN n - i + 1 ELSE n - i)>>))>>)
      [] k = "exts" ->
           LET D(j) == StrCat(<<"external ", N("e", j), "(x: ", Ty(j), ")\n">>)
               U(j) == StrCat(<<"if gi(0) is 1 { ", N("e", IF f = "undef" /\ j = i THEN n + j ELSE j), "(", Va(j), ") }\n">>)
           IN StrCat(<<Each(D, 1, n, ""), IF f = "dup" THEN D(i) ELSE "", Each(U, 1, n, "")>>)
      [] k = "writes" -> \* variables that change hands
           LET D(j) == StrCat(<<IF f = "const" /\ j = i THEN "" ELSE "mut ", N("v", j), " := gi(", Num(j), ")\n">>)
               W(j) == StrCat(<<N("v", j), " = ", IF f = "type" /\ j = i THEN "true" ELSE StrCat(<<N("v", 1 + (j % n)), " + 1">>), "\n">>)
               U(j) == Put(1, N("v", j))
           IN StrCat(<<Each(D, 1, n, ""), Each(W, 1, n, ""), Each(W, 1, i, ""), Each(U, 1, n, "")>>)
      [] k = "loops" -> \* loops in loops, each run twice at most
           LET m == IF n > 5 THEN 5 ELSE n
               O(j) == StrCat(<<"mut ", N("c", j), " := 0\nwhile ", N("c", j), " < 2 {\n", N("c", j), " = ", N("c", j), " + 1\n">>)
               q == IF i > m THEN m ELSE i
           IN StrCat(<<Each(O, 1, m, ""), "pi(1)\n", Times("}\n", m - q), "pi(2)\n", IF f \in {"break", "continue"} THEN StrCat(<<"if gi(1) is 1 { ", f, " }\npi(4)\n">>) ELSE "", Times("}\npi(3)\n", q)>>)
      [] k = "deep" ->
           StrCat(<<Times("if gi(1) is 1 {\n", n), "pi(1)\n", IF f = "else" THEN "else { pi(2) }\n" ELSE "", Times("}\nelse { pi(2) }\n", i), Times("}\n", n - i), IF f = "extra" THEN "}\n" ELSE "", "pi(3)\n">>)
      [] k = "strs" -> \* many strings; some are alike
           LET S(j) == StrCat(<<"\"", Times("z", IF f = "same" THEN j % i ELSE j), "\"">>)
               D(j) == StrCat(<<N("s", j), " := ", S(j), "\n">>)
               U(j) == Put(4, N("s", j)) \o Put(3, StrCat(<<N("s", j), " is ", N("s", 1 + ((j + i) % n))>>))
           IN StrCat(<<Each(D, 1, n, ""), Each(U, 1, n, "")>>)
      [] k = "kinds" -> \* one name for one thing
           LET D(j) == CASE j % 4 = 0 -> N("q", j) \o " := 1\n" [] j % 4 = 1 -> N("q", j) \o "() { noop }\n" [] j % 4 = 2 -> N("q", j) \o " := Int\n" [] OTHER -> StrCat(<<"namespace ", N("q", j), " { noop }\n">>)
           IN StrCat(<<Each(D, 1, n, ""), IF f = "redefine" THEN CASE n % 4 = 0 -> N("q", i) \o " := 1\n" [] n % 4 = 1 -> N("q", i) \o "() { noop }\n" [] n % 4 = 2 -> N("q", i) \o " := Int\n"
                       [] OTHER -> StrCat(<<"namespace ", N("q", i), " { noop }\n">>) ELSE "pi(1)\n">>)
ManyText(k, n, i, f) == StrCat(<<Shows, "\f", Body(k, n, i, f)>>)
==============================================================================
