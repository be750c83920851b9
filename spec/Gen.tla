--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Source texts to try, as behaviours: a text is written statement by       *)
(* statement (kits with Plain/Open) or part by part (kits with Slots).      *)
(* TLC enumerates every text within the bounds and hands it to the driver,  *)
(* which shows it to the real compiler; what should happen is decided by    *)
(* Skull.tla (see Conform.tla).                                             *)
(***************************************************************************)
EXTENDS Many, Places, Naturals, Sequences, FiniteSets, TLC, IOUtils, Native

Kit == IOEnv.SKULL_KIT
MaxLen == Small(IOEnv.SKULL_LEN)     \* statements
MaxDepth == Small(IOEnv.SKULL_DEPTH) \* nested blocks

----------------------------------------------------------------------------
(* Kits of statements                                                       *)

(* declarations before the item; a form feed ends what several items can share *)
Prelude ==
    CASE Kit \in {"imports", "scope", "flow", "jumps", "const", "warn", "stmts"} -> <<"external pi(x: Int)", "external tk() Bool", "\f">>
      [] Kit = "refs" -> <<"external pi(x: Int)", "external di(x: &Int)", "external pb(x: Bool)", "\f", "mut a := 1", "mut b := 2",
                           "mut r := &a", "s := &b", "di(r)">>
      [] Kit = "funcs" -> <<"external pi(x: Int)", "external gi(x: Int) Int", "mut v := 1", "f(x: Int) Int { v = v + x return v }",
                            "g(x: Int, y: Int) { pi(x - y) }", "h() Int { return f(10) }", "next() Int { v = v + 1 return v }",
                            "zero() { v = 1 }", "\f">>
      [] OTHER -> <<>>

Plain ==
    CASE Kit = "scope" ->
           {"a := 1", "mut a := 2", "a = 3", "pi(a)", "a() Int { return 4 }", "pi(a())", "pi(b.a)", "b := 5", "a := Int"}
      [] Kit = "flow" ->
           {"pi(1)", "pi(2)", "return 3", "return", "break", "continue", "noop", "unreachable", "# c", "f()"}
      [] Kit = "jumps" ->
           {"pi(1)", "pi(2)", "return 3", "break", "continue", "# c\n# d"}
      [] Kit = "const" ->
           {"a := 1", "mut a := 2", "a = 3", "a = a + 1", "pi(a)", "export a := 4", "export mut a := 5", "a = true", "a: Int = 6"}
      [] Kit = "refs" ->
           {"a = 3", "b = *r", "r = &b", "r = s", "pi(*r)", "di(s)", "di(&a)", "t := &r", "pb(r is s)", "c := *s", "r = &c",
            "s = &a", "pi(a + *r)", "mut t := &a", "t = r", "di(t)", "pi(*a)", "r = &&a", "u := &5", "k(&a)", "k(r)"}
      [] Kit = "funcs" ->
           {"pi(f(2))", "g(3, 4)", "pi(h())", "v = 7", "pi(v)", "g(f(1), f(2))", "g(gi(1), gi(2))", "f(5)", "w := f(6)", "pi(w)",
            "k(x: Int) Int { if x < 1 { return 0 } return k(x - 1) + x }", "pi(k(3))", "g(1)", "f(1, 2)", "f()", "w := g(1, 2)",
            "pi(g(1, 2))", "f(true)", "return f(1)", "pi(x)", "k(x: Int) Int { return x } pi(k(4))", "v = f(v)",
            "g(next(), next())", "g(v, next())", "zero()", "v = 1", "pi(next() - next())", "g(h(), v)", "pi(f(f(1)))",
            "mut u := v", "u = u + next()", "pi(u)"}
      [] Kit = "warn" ->
           {"a := 1", "mut a := 2", "a = 3", "pi(a)", "b: Int = 4", "f() { noop }", "f()", "while false { noop }",
            "if true { noop }", "export c := 5", "a: Float = 1.5", "external g()"}
      [] Kit = "stmts" ->
           {"x := 1", "mut y := 2", "y = 3", "pi(1)", "return 3", "return", "break", "continue", "noop", "unreachable", "# c", "#{ c #}",
            "f()", "external e()", "external e(z: Int) Int", "export z := 1", "export z() { noop }", "T := Int", "namespace n { noop }",
            "namespace n { w := 1 }", "if tk() { noop }", "while tk() { noop }", "g() { noop }", "g() Int { return 1 }", "import m",
            "if tk() { return 3 } else { return 4 }", "w: Int = 5", "else { noop }", "elif tk() { noop }", "{ noop }", "x", "1 + 2", "pi(x)", "n.w"}
      [] Kit = "imports" ->
           {"import m", "import n", "import t", "import m.n", "import", "import m n", "import Int", "import if", "import \"m\"", "import 3", "import m: Int",
            "import m # c", "m := 1", "pi(m)", "pi(m.x)", "noop", "import import", "export import m", "import M", "m.f()", "return 0", "import m_1", "import m:= 1"}
      [] Kit = "names" ->
           {"external f()", "external f() Int", "f() { noop }", "f := 1", "f := Int", "namespace f { x := 1 }", "export f() { noop }",
            "f()", "namespace g { f := 2 }", "g.f()", "x := g.f", "f: Int = 3", "g(f: Int) { noop }", "mut f := 4", "f = 5", "y: f = 6"}
      [] OTHER -> {}

Open ==
    CASE Kit = "scope" -> {"if tk() {", "else {", "f() {", "while tk() {", "namespace a {", "namespace b {"}
      [] Kit = "flow" -> {"if tk() {", "elif tk() {", "else {", "while tk() {", "f() Int {", "f() {"}
      [] Kit = "jumps" -> {"if tk() {", "elif tk() {", "else {", "while tk() {"}
      [] Kit = "const" -> {"if tk() {", "while tk() {", "f(a: Int) {", "f() {", "namespace n {"}
      [] Kit = "refs" -> {"k(p: &Int) {", "if *r is 1 {"}
      [] Kit = "funcs" -> {"k(x: Int) Int {", "if f(1) > 2 {"}
      [] Kit = "warn" -> {"if tk() {", "g() {", "namespace n {"}
      [] Kit = "stmts" -> {"if tk() {", "elif tk() {", "else {", "while tk() {", "f() Int {", "f() {", "namespace n {", "namespace m {"}
      [] Kit = "imports" -> {"if tk() {", "f() {", "namespace m {"}
      [] Kit = "names" -> {"f() {", "namespace f {", "if true {"}
      [] OTHER -> {}

----------------------------------------------------------------------------
(* Kits of parts                                                            *)

Ops == {"+", "-", "*", "/", "mod", "^", "<<", ">>", "<", ">", "<=", ">=", "is", "isnt", "and", "or", "xor"}
Un == {"", "-", "not ", "&", "*"}
Vals == {"3", "1.5", "true", "'a'", "\"s\"", "mi", "ci", "mf", "mb", "mr", "ms", "ri", "rf", "rri", "gi(2)", "gf(0.5)",
         "gb(false)", "v()", "T", "f", "f(1)", "nope", "(ci)"}
Types == {"Int", "Float", "Bool", "Rune", "Str", "&Int", "&Float", "&&Int", "&T", "&Nope", "&&Float", "T", "Void", "Nope", "&Void", "f"}
(* a declaration, and the parts that need it *)
Decls == <<
    <<"external gi(x: Int) Int\n", {"gi(2)", "gi(", "gi"}>>,
    <<"external gf(x: Float) Float\n", {"gf(0.5)", "gf("}>>,
    <<"external gb(x: Bool) Bool\n", {"gb(false)", "gb("}>>,
    <<"external v()\n", {"v()", "v"}>>,
    <<"mut mi := 4\n", {"mi", "mi = ", "ri", "rri", "ri = "}>>,
    <<"ci := 6\n", {"ci", "(ci)", "ci = ", "ci "}>>,
    <<"mut mf := 2.5\n", {"mf", "rf", "mf = "}>>,
    <<"mut mb := true\n", {"mb", "mb = "}>>,
    <<"mut mr := 'z'\n", {"mr", "mr = "}>>,
    <<"mut ms := \"q\"\n", {"ms", "ms = "}>>,
    <<"mut ri := &mi\n", {"ri", "ri = ", "rri"}>>,
    <<"rf := &mf\n", {"rf"}>>,
    <<"rri := &ri\n", {"rri"}>>,
    <<"T := Int\n", {"T", "x: T = ", "&T", "a: T", " T", "T: Int"}>>,
    <<"h2(x: Int, y: Int) { noop }\n", {"h2"}>>,
    <<"h3(x: Int, y: Int, z: Int) Int { return z }\n", {"h3"}>>,
    <<"f(x: Int) Int { return x }\n", {"f", "f(", "f(1)", "1, f(2)", "f: Int", " f"}>> >>
RECURSIVE DeclsFor(_, _)
DeclsFor(t, k) == IF k > Len(Decls) THEN <<>>
                  ELSE (IF \E j \in DOMAIN t : t[j] \in Decls[k][2] THEN <<Decls[k][1]>> ELSE <<>>) \o DeclsFor(t, k + 1)
TypesPrelude(t) == StrCat(<<"noop\n">> \o DeclsFor(t, 1))
Globals == "external pi(x: Int)\nexternal pf(x: Float)\nexternal pb(x: Bool)\nexternal gi(x: Int) Int\nexternal gf(x: Float) Float\nexternal gb(x: Bool) Bool\n\f"
Show == "external pi(x: Int)\nexternal pf(x: Float)\nexternal pb(x: Bool)\nexternal gi(x: Int) Int\nexternal gf(x: Float) Float\nexternal gb(x: Bool) Bool\n"
    \o "external gs(x: Str) Str\nexternal gr(x: Rune) Rune\nmut x := 13\nmut z := -7\nk := 6\nmut y := 2.5\nq := -0.75\nr := &z\nmut t := \"ab\"\n"
    \o "fx() Int { x = x + 1 return x }\nfy(a: Float) Float { return a + y }\n\f"

(* contexts an expression can stand in: text before and after it *)
Before == {"x := ", "mut x := ", "x: Int = ", "x: Float = ", "x: Bool = ", "x: Rune = ", "x: Str = ", "x: &Int = ", "x: T = ", "x: &&Int = ", "x: &Float = ",
           "mi = ", "mf = ", "mb = ", "mr = ", "ms = ", "ri = ", "ci = ", "gi(", "gf(", "gb(", "f(",
           "if ", "while ", "return ", "g() Int { return ", "g() Bool { return ", "g() Str { return ", "g() { return ", "g() Float { return ", "g() Rune { return ", "g() &Int { return ",
           "g() &&Int { return ", "g() &Float { return ", "g() &Str { return ", ""}
After(b) == IF b \in {"gi(", "gf(", "gb(", "f("} THEN ")\n"
            ELSE IF b \in {"if ", "while "} THEN " { noop }\n"
            ELSE IF b \in {"g() Int { return ", "g() Bool { return ", "g() Str { return ", "g() { return ", "g() Float { return ", "g() Rune { return ",
                         "g() &Int { return ", "g() &&Int { return ", "g() &Float { return ", "g() &Str { return "} THEN " }\n"
            ELSE "\n"

IntOps == {"+", "-", "*", "/", "mod", "^", "<<", ">>"}
CmpOps == {"<", ">", "<=", ">=", "is", "isnt"}
BoolOps == {"and", "or", "xor"}

(* operands of nested expressions: variables, constants, calls with effects, references *)
IVals == {"x", "2", "k", "fx()", "-3", "*r"}
FVals == {"y", "2.0", "q", "0.5", "fy(1.0)"}
Shapes == {"(A o B) p C", "A o (B p C)", "A o B p C", "- A o B p C", "(A o B) p A", "A o B p B"}
Shape(f, a, o, b, p, c) ==
    CASE f = "(A o B) p C" -> StrCat(<<"(", a, " ", o, " ", b, ") ", p, " ", c>>)
      [] f = "A o (B p C)" -> StrCat(<<a, " ", o, " (", b, " ", p, " ", c, ")">>)
      [] f = "A o B p C" -> StrCat(<<a, " ", o, " ", b, " ", p, " ", c>>)
      [] f = "- A o B p C" -> StrCat(<<"- ", a, " ", o, " ", b, " ", p, " ", c>>)
      [] f = "(A o B) p A" -> StrCat(<<"(", a, " ", o, " ", b, ") ", p, " ", a>>)
      [] f = "A o B p B" -> StrCat(<<a, " ", o, " ", b, " ", p, " ", b>>)
Strs == {"\"\"", "\"a\"", "\"ab\"", "\"abc\"", "\"b\"", "t", "gs(\"ab\")", "gs(\"\")", "gs(\"abd\")", "\"\\xe9\"", "\"A\""}
Runes == {"'a'", "'b'", "gr('a')", "'\\xe9'", "gr('\\x1F480')", "'A'", "'\\0'"}
Bools == {"true", "false", "gb(true)", "gb(false)", "x < 3", "not gb(true)"}
Ints == {"0", "1", "x", "z", "*r", "gi(-7)", "gi(4294967296)", "4294967297", "-1", "gi(9223372036854775807)", "-9223372036854775808"}
Flts == {"0.0", "-0.0", "y", "2.5", "NaN", "gf(NaN)", "Infinity", "gf(-Infinity)", "0.1 + 0.2", "0.3", "q"}
EqOf(S) == [a : S, o : {"is", "isnt"}, b : S]
OrdOf(S) == [a : S, o : {"<", ">", "<=", ">="}, b : S]
Comparisons == EqOf(Strs) \cup EqOf(Runes) \cup EqOf(Bools) \cup EqOf(Ints) \cup EqOf(Flts) \cup OrdOf(Ints) \cup OrdOf(Flts)

(* short programs to be edited, token by token *)
Programs == <<
    <<"f", "(", "x:", "Int", ",", "y:", "Float", ")", "Int", "{", "return", "x", "}", "\n", "f", "(", "1", ",", "2.0", ")", "\n">>,
    <<"f", "(", "x:", "Int", ",", "y:", "Int", ",", "z:", "Int", ")", "{", "noop", "}", "\n", "f", "(", "1", ",", "2", ",", "3", ")", "\n">>,
    <<"external", "e", "(", "x:", "&", "Int", ")", "Bool", "\n", "mut", "a", ":=", "1", "\n", "e", "(", "&", "a", ")", "\n">>,
    <<"external", "e", "(", ")", "\n", "f", "(", ")", "{", "e", "(", ")", "}", "\n", "f", "(", ")", "\n">>,
    <<"if", "true", "{", "noop", "}", "elif", "false", "{", "noop", "}", "else", "{", "noop", "}", "\n">>,
    <<"mut", "x", ":=", "1", "\n", "while", "x", "<", "3", "{", "x", "=", "x", "+", "1", "}", "\n">>,
    <<"x:", "Int", "=", "(", "1", "+", "2", ")", "*", "3", "\n", "x", "\n">>,
    <<"x", ":=", "not", "(", "1", "is", "2", ")", "and", "true", "\n">>,
    <<"x", ":=", "-", "(", "1", "-", "2", ")", "\n", "y", ":=", "-", "x", "\n">>,
    <<"T", ":=", "&", "Int", "\n", "a", ":=", "1", "\n", "r:", "T", "=", "&", "a", "\n", "b", ":=", "*", "r", "\n">>,
    <<"namespace", "n", "{", "x", ":=", "1", "\n", "f", "(", ")", "{", "noop", "}", "}", "\n", "n.f", "(", ")", "\n", "n.x", "\n">>,
    <<"export", "x", ":=", "1", "\n", "export", "f", "(", ")", "Str", "{", "return", "\"s\"", "}", "\n">>,
    <<"f", "(", ")", "Int", "{", "if", "true", "{", "return", "1", "}", "return", "(", "2", ")", "}", "\n", "x", ":=", "f", "(", ")", "\n">>,
    <<"while", "true", "{", "if", "true", "{", "break", "}", "continue", "}", "\n", "return", "0", "\n">>,
    <<"f", "(", "x:", "Int", ")", "Int", "{", "y", ":=", "x", "}", "\n">>,
    <<"f", "(", ")", "{", "x", ":=", "(", "1", ")", "}", "\n", "g", "(", ")", "{", "return", "}", "\n">>,
    <<"a", ":=", "'a'", "\n", "b", ":=", "a", "isnt", "'b'", "xor", "true", "\n", "# c", "\n", "#{ d #}", "\n">>,
    <<"mut", "a", ":=", "1.5", "\n", "a", "=", "a", "/", "2.0", "mod", "3.0", "^", "4.0", "\n">>,
    <<"f", "(", "x:", "&", "&", "Int", ")", "&", "&", "Int", "{", "return", "x", "}", "\n">>,
    <<"f", "(", "x:", "Int", ")", "Int", "{", "return", "x", "}", "\n", "f", "(", "f", "(", "1", ")", "+", "f", "(", "(", "2", ")", ")", ")", "\n">>,
    <<"noop", "\n", "unreachable", "\n">>, <<"return", "1", "<<", "2", ">>", "1", "\n">>,
    <<"if", "1", "<=", "2", "{", "x", ":=", "1", "}", "\n", "else", "{", "return", "3", "}", "\n">> >>
EditTokens == {"(", ")", "{", "}", ",", "&", "*", "-", "not", "+", "is", "<", "=", ":=", "\n", "# c\n", "#{ c #}", "if", "elif", "else", "while",
               "return", "break", "noop", "mut", "external", "export", "namespace", "import", "x", "x:", "Int", "1", "true", "\"s\"", "f", "n.x",
               ":", "unreachable", "$", "x := 1\n", "{ noop }", "( )", "and", "^"}
RECURSIVE Spaced(_)
Spaced(t) == IF t = <<>> THEN <<>> ELSE <<t[1], IF t[1] = "\n" THEN "" ELSE " ">> \o Spaced(Tail(t))

(* digits for literals *)
Pre == {"", "-", "+", "1", "2_"}
Bases == {"", "", "0x", "0X", "0b", "0o", "0"}
Digits == {"0", "1", "7", "8", "9", "a", "F", "g", "_", ".", "e", "12", "9223372036854775807", "9223372036854775808", "7fffffffffffffff",
           "8000000000000000", "777777777777777777777", "111111111111111111111111111111111111111111111111111111111111111", "1000000000000000000000000000000000000000000000000000000000000000",
           "100000000000000000000000000000001", "1777777777777777777777", "179769313486231570000.5", "00", "f", "Infinity", "NaN"}
Esc == {"\\n", "\\t", "\\r", "\\e", "\\0", "\\\\", "\\'", "\\\"", "\\x41", "\\x", "\\x4", "\\x041", "\\xe9", "\\x1F480", "\\xd800",
        "\\xfffd", "\\q", "\\N", "\\", "a", "'", "\"", "\n", " ", "#", "#{", "\t", "", "\\x00041", "\\xg1", "\\x7f", "{", "}", "é", "中"}
(* floats at the edges: the largest, the smallest, halfway between two; digits, and how many zeros behind or before them *)
Wholes == {"0 0", "1 0", "3 0", "00 0", "4503599627370497 0", "9007199254740991 0", "9007199254740993 0", "18014398509481987 0", "9223372036854775808 0", "1 22", "1 23",
           "1 308", "2 308", "1 309", "17976931348623157 292", "17976931348623158 292", "17976931348623159 292", "1_0_0 0"}
Parts == {"0 0", "0 5", "0 1", "0 3", "0 25", "0 125", "0 4999999999999999999", "0 50000000000000000001", "0 3333333333333333", "0 30000000000000004", "0 1000000000000000055511151231257827"}
         \cup {StrCat(<<k, " ", d>>) : k \in {"1", "15", "16", "22", "100", "250", "305", "307", "308", "310", "322", "323", "324", "330"},
                d \in {"1", "22250738585072014", "49", "5", "24703282292062327208", "24703282292062327209"}}
(* names that are nearly the name of a type or a word of the language *)
Near == {"Intx", "Int2", "In", "int", "IntInt", "Int_", "Floats", "Flo", "float", "Boolean", "Boo", "bool", "Runes", "Run", "rune", "String", "St", "str", "Voids", "Voi", "void",
         "iff", "i", "If", "elsee", "els", "elseif", "while1", "whil", "returns", "retur", "muts", "mu", "Mut", "note", "no", "android", "an", "ors", "o", "xors", "iss", "isn", "mode", "mo",
         "truee", "tru", "True", "falsey", "fals", "NaNs", "Na", "nan", "Infinit", "Infinityy", "infinity", "noops", "noo", "breaks", "brea", "continues", "exports", "expor", "externals", "extern",
         "imports", "impor", "namespaces", "namespac", "unreachables", "unreach", "Int", "Void", "true", "if", "mod", "NaN", "return"}
(* text before the name, between its two uses, after it *)
Uses == <<<<"x: ", "", " = 1\n">>, <<"", " := 1\npi(", ")\n">>, <<"f(a: ", "", ") { noop }\n">>, <<"f(", ": Int) Int { return ", " }\npi(f(2))\n">>, <<"f() ", "", " { return 1 }\n">>,
          <<"T := ", "", "\ny: T = 1\n">>, <<"", " := Int\ny: ", " = 1\npi(y)\n">>, <<"", "() Int { return 4 }\npi(", "())\n">>, <<"namespace ", " { q := 3 }\npi(", ".q)\n">>, <<"namespace n { ", " := 3 }\npi(n.", ")\n">>,
          <<"x := 1\ny: &", "", " = &x\n">>, <<"mut ", " := 1\n", " = 2\n">>, <<"", "\n", "\n">>, <<"pi(", ")\npi(", ")\n">>, <<"x := 3 ", " ", " 2\n">>, <<"", " true { noop }\n", " { noop }\n">>, <<"external ", "(x: ", ")\n">>, <<"export ", " := 1.5\n", "\n">>>>
(* what a text may end with *)
Starts == {"", "x := 1", "x := 1\n", "noop", "noop ", "f() { noop }", "# c", "#{ c #}", "x := \"s\"", "x := 'c'", "if true {\nnoop\n}", "x := (1)", "pi(2)", "x := 1.5", "x", "x: Int = 2"}
(* something long before a fault; @ stands for n times what follows it *)
Lengths == {"1", "2", "7", "8", "15", "16", "31", "32", "63", "64", "65", "79", "80", "81", "99", "100", "127", "128", "129", "199", "200", "201", "254", "255", "256", "257", "300", "511", "512", "513", "1000", "1023", "1024"}
Leads == <<<<"", " ", "">>, <<"", "\t", "">>, <<"", "\n", "">>, <<"#{ ", "x", " #}">>, <<"#{ ", "x", "\n #}">>, <<"#{\n", "x ", "\n#}">>, <<"# ", "x", "\n">>, <<"#{ ", "é", " #}">>, <<"v := \"", "a", "\"\n">>, <<"v := \"", "é", "\"\n">>,
           <<"a", "b", " := 1\n">>, <<"v := 1", " + 1", "\n">>, <<"#{", "\n", "#}">>, <<"#{ a", "\n b", " #}">>, <<"", "noop ", "">>, <<"", "noop\n", "">>, <<"v := \"", "💀", "\" ">>, <<"v := 0", "0", "1 ">>, <<"#", "#", "\n">>, <<"", "#{ #}", "">>>>
Ends == {"$\n", "  y\n", "z := 1.5 + 2\n", "pi(nope)\n", "\"", "w := 'ab'\n", "}\n", " $", "u := 1 #{ #} 2\n", "w := \"\\q\"\n"}
(* how a global is computed from the one before *)
IChain == {"@", "@ + 1", "- @", "@ ^ 2", "@ * @", "gi(@)", "@ / 2 - 3", "2 ^ @", "k(@)"}
FChain == {"@", "@ + 0.5", "- @", "@ ^ 2.0", "@ mod 2.5", "gf(@)", "2.0 / @"}
BChain == {"@", "not @", "@ and true", "@ or false", "@ is true", "@ xor @", "gb(@)", "3 is 4", "\"a\" is \"a\"", "s isnt \"a\"", "1.5 is y"}
RECURSIVE Fill(_, _, _)
Fill(e, c, n) == LET k == {q \in DOMAIN e : e[q] = 64} IN IF k = {} THEN Slice(e, 1, Len(e))
                 ELSE LET q == CHOOSE j \in k : \A h \in k : j <= h IN StrCat(<<Slice(e, 1, q - 1), n, Fill(SubSeq(e, q + 1, Len(e)), c, n)>>)
With(e, n) == Fill(Codes(e), 64, n)
Chain(p, t, m, a, b, c, d) == StrCat(<<"mut s := \"b\"\ny := 1.5\nk(x: Int) Int { return x + 1 }\n", m[1], "a := ", a, "\n", m[2], "b := ", With(b, "a"), "\n", m[3], "c := ", With(c, "b"), "\nd := ", With(d, "c"), "\n",
    "if gb(true) {\ne := ", With(b, "d"), "\n", p, "(e)\n}\nw() { ", p, "(c) ", p, "(b) }\nw()\n", p, "(a)\n", p, "(d)\n", p, "(", With(c, "d"), ")\n">>)
Muts == {<<"", "", "">>, <<"mut ", "", "">>, <<"", "mut ", "">>, <<"export ", "", "export ">>, <<"", "", "mut ">>}
Words(t) == LET c == Codes(t) k == CHOOSE q \in DOMAIN c : c[q] = 32 IN <<Slice(c, 1, k - 1), Slice(c, k + 1, Len(c))>>
Whole__(t) == LET w == Words(t) IN w[1] \o Times("0", Small(w[2]))
Part__(t) == LET w == Words(t) IN Times("0", Small(w[1])) \o w[2]
Quotes == {"'", "\""}
(* every control character, and characters of two, three and four bytes that show nothing or are the last of their kind *)
\* (by number: TLC tells states apart by the low bytes of the characters in their strings)
Raw == {Num(c) : c \in (1 .. 31) \cup (127 .. 161) \cup {173, 255, 256, 2047, 2048, 8203, 8232, 55295, 57344, 63743, 65279, 65533, 65535, 65536, 1114111}}
Chars == {"a", "1", "_", ".", ":", "=", "-", "+", "*", "&", "(", ")", "{", "}", ",", "#", "'", "\"", "\\", "\n", " ", "\t", "<", "é", "x"}
Frags == {"\"\\\\\"", "\"a\\\\\"", "'\\\\'", "'\\''", "\"\\\"\"", "\"b\"", "'c'", "a", "1", "#", "#{", "#}", "# ", "\n", " ", "\"", "'", "\\", "{", "}", "(", ")", ":=", "=", ",", "if", "true", "&", "*", "-", ":", "Int"}

Slots ==
    CASE Kit = "type1" -> <<Before, Un, Vals>>
      [] Kit = "type2" -> <<{"x := ", "if ", "mi = ", "gb("}, Vals, Ops, Vals>>
      [] Kit = "type2b" -> <<{"return ", "x: Float = "}, Un, Vals, Ops, Un, Vals>>
      [] Kit = "decl" -> <<{"", "mut ", "export ", "export mut ", "external ", "mut mut "}, {"x", "mi", "T", "f"}, {": "}, Types, {" = ", " := "}, {"3", "1.5", "ri", "true", "'a'", "\"s\"", "T"}>>
      [] Kit = "declx" -> <<{"", "mut "}, {"x", "x y", "Int", "3"}, {": ", " : ", " ", ":", " :"}, {"Int", "Nope", ""}, {" = ", " := ", "=", ""}, {"3", "\n", "3 4", "x"}>>
      [] Kit = "blocks" -> <<{"if true ", "while false ", "f() ", "namespace n ", "if true { noop }\nelse ", "if true { noop }\nelif true ", "", "noop "},
                             {"{", "{\n", "\n{\n", "# c\n{", "#{ c #} {", "\n\n{"}, {"", "noop", "noop\n", "# c\n", "#{ c #}", "\nnoop\nnoop\n", "x := 1", "{ noop }", "return"}, {"}", "\n}", "}\n", "} noop\n", "", "}}", "} # c\n", "}else{noop}"}>>
      [] Kit = "proto" -> <<{"", "external ", "export "}, {"h("}, {"", "a: Int", "a: Nope", "a: Void", "a", "a: Int, b: Float", "a: Int, a: Int", "a: Int,", ", a: Int", "a: &Int", "a: &&Int", "a: &T", "f: Int", "T: Int", "a: T", "a: Int b: Int", "Int", "a: Int # c\n", "a: Int, # c\nb: Int", "a: Int,\nb: Int", "\na: Int\n", "a: Int\n, b: Int", "#{ c #} a: Int", "a: #{ c #} Int", "a: Int #{ c #} b: Int", "(a: Int)", "a: 3", "a Int", "mut a: Int", "a: &", "a: &Nope"}, {")"},
                           {"", " Int", " Nope", " Void", " T", " &Int", " &&Int", " &T", " &Nope", " f", " a", " &"}, {"\n", " { noop }\n", " { return 1 }\n", " { return a }\n", "{noop}\n", " {\n}\n", " {}\n", " { return }\n"}>>
      [] Kit = "call" -> <<{"f", "gi", "v", "h3", "h2", "nope", "mi", "T"}, {"(", " (", "(\n", "(\n\n"}, {"", "1", "1, 2", "1 2", ", 1", "1,", "1.5", "1\n", "1,\n2", "(1)", "1, 2, 3", "f(1)", "v()", "1, f(2)", "# c\n1", "1 #{ c #}, 2", "1 #{ c #} 2", "1, 2 # c\n 3", "1, 2 #{ c #} 3", "1, #{ c #} 2", "1 + ", "1 # c\n", "1, 2, ", "1,, 2", "(1, 2)", "(1), (2)", "1 { 2", "1\n2", "1, 2\n3", "1 # c\n, 2", "x := 1", "1 = 1", "Int", "\"s\", 'c'", "1, v"}, {")\n", "\n", ")", " )\n", ") { noop }\n", "))\n", ") 1\n", ")\n)\n"}>>
      [] Kit = "prec" -> <<{"gi(7)", "- gi(7)", "(gi(7) - gi(1))"}, IntOps, {"gi(3)", "(gi(2) + gi(1))"}, IntOps, {"gi(2)"}>>
      [] Kit = "precb" -> <<{"", "not "}, {"true", "gb(false)", "3 < 2", "1.5 is 1.5"}, BoolOps \cup {"is", "isnt"}, {"gb(true)", "not gb(true)", "gi(2) >= gi(2)"}, BoolOps \cup {"is", "isnt"}, {"gb(false)", "false isnt true"}>>
      [] Kit = "precf" -> <<{"gf(7.5)", "- gf(7.5)"}, {"+", "-", "*", "/", "mod", "^"}, {"gf(2.0)", "0.25"}, {"+", "-", "*", "/", "mod", "^"}, {"gf(3.0)", "2.0"}>>
      [] Kit = "arith" -> <<{"0", "1", "-1", "7", "-7", "255", "9223372036854775807", "-9223372036854775808", "4294967296"}, IntOps \cup CmpOps,
                            {"0", "1", "-1", "2", "-3", "63", "64", "9223372036854775807", "3"}>>
      [] Kit = "farith" -> <<{"0.0", "-0.0", "1.5", "-2.25", "Infinity", "-Infinity", "NaN", "179769313486231570000000000000000000000.0"},
                             {"+", "-", "*", "/", "mod", "^"} \cup CmpOps, {"0.0", "-0.0", "1.5", "-2.0", "Infinity", "NaN", "0.5", "3.0"}>>
      [] Kit = "iexpr" -> <<Shapes, IVals, IntOps, IVals, IntOps, IVals>>
      [] Kit = "fexpr" -> <<Shapes, FVals, {"+", "-", "*", "/", "mod", "^"}, FVals, {"+", "-", "*", "/", "mod", "^"}, FVals>>
      [] Kit = "cmp" -> <<{"", "not "}, Comparisons>>
      [] Kit = "num" -> <<Pre, Bases, Digits, {"", "_"} \cup Digits>>
      [] Kit = "quoted" -> <<Quotes, Esc, Esc, {"'", "\"", "", "'x", "\"\""}>>
      [] Kit = "places" -> <<Sorts, Sorts, Things, Rests>>
      [] Kit = "near" -> <<Near, DOMAIN Uses>>
      [] Kit = "ends" -> <<Starts, {Num(c) : c \in (33 .. 126) \cup {9, 10, 11, 12, 13, 32, 161, 8232}}, {"", "\n", "x"}>>
      [] Kit = "cols" -> <<DOMAIN Leads, Lengths, Ends>>
      [] Kit = "chaini" -> <<Muts, {"1", "2 ^ 2", "7 mod 4", "- 3", "gi(2)", "k(1)"}, IChain, IChain, IChain>>
      [] Kit = "chainf" -> <<Muts, {"1.5", "5.5 mod 2.0", "0.0", "gf(2.0)", "1.5 ^ 2.0"}, FChain, FChain, FChain>>
      [] Kit = "chainb" -> <<Muts, {"true", "\"a\" is \"b\"", "gb(false)", "1 < 2", "1.5 isnt 1.5", "s is \"b\""}, BChain, BChain, BChain>>
      [] Kit = "neg" -> <<{"- ", "", "not "}, {[t |-> "pi", v |-> v] : v \in Ints \cup {"- x", "- gi(0)", "gi(-9223372036854775807)", "(- 1)"}} \cup {[t |-> "pf", v |-> v] : v \in Flts \cup {"gf(0.0)", "gf(-0.0)", "gf(1.5)", "- gf(0.0)", "1.0 / gf(0.0)", "1.0 / gf(-0.0)", "gf(0.0) * gf(-1.0)", "(0.0 - gf(0.0))"}} \cup {[t |-> "pb", v |-> v] : v \in Bools \cup {"not gb(false)"}}>>
      [] Kit = "float" -> <<{"", "-"}, Wholes, Parts>>
      [] Kit = "ctrl" -> <<{"x := ", "x", ""}, {"'", "\"", "# ", "#{ ", ""}, {"", "a", "\\"}, Raw, {"", "b", "\n"}, {"'", "\"", "", " #}"}, {"\n", ""}>>
      [] Kit = "raw" -> <<Quotes, {"", "a", "\\n"}, Raw, {"", "1", "\\\""}>>
      [] Kit = "placesc" -> <<Sorts \ {"ns"}, CInner, CThings, Rests>>
      [] Kit = "places3" -> <<Sorts, Sorts, Sorts, Things, {"", "pi(77)\n"}>>
      [] Kit = "chars" -> [k \in 1..MaxLen |-> Chars]
      [] Kit = "frags" -> [k \in 1..MaxLen |-> Frags]
      [] Kit = "idents" -> <<{"", "&", "*", "a.", ".", "_", "1", "é"}, {"a", "if", "Int", "mod", "is", "_", "9", "A", "true", "x.y", "x..y", "a:", "return", "Void", "NaN"},
                             {"", ".", "_", ":", "::", "'", "(", "1", ".b", "$", "é"}, {" := 1", "= 1", " = 1", ":=1", ": Int = 1", ""}>>
      [] OTHER -> <<>>

Wrap(t) ==
    CASE Kit = "type2" -> TypesPrelude(t) \o t[1] \o t[2] \o " " \o t[3] \o " " \o t[4] \o After(t[1])
      [] Kit = "type2b" -> TypesPrelude(t) \o t[1] \o t[2] \o t[3] \o " " \o t[4] \o " " \o t[5] \o t[6] \o After(t[1])
      [] Kit = "type1" -> TypesPrelude(t) \o StrCat(t) \o After(t[1])
      [] Kit \in {"decl", "declx", "proto", "call"} -> TypesPrelude(t) \o StrCat(t) \o "\nnoop\n"
      [] Kit = "prec" -> Show \o "pi(" \o t[1] \o " " \o t[2] \o " " \o t[3] \o " " \o t[4] \o " " \o t[5] \o ")\n"
      [] Kit = "precb" -> Show \o "pb(" \o t[1] \o t[2] \o " " \o t[3] \o " " \o t[4] \o " " \o t[5] \o " " \o t[6] \o ")\n"
      [] Kit = "precf" -> Show \o "pf(" \o t[1] \o " " \o t[2] \o " " \o t[3] \o " " \o t[4] \o " " \o t[5] \o ")\n"
      [] Kit = "iexpr" -> Show \o "pi(" \o Shape(t[1], t[2], t[3], t[4], t[5], t[6]) \o ")\n"
      [] Kit = "fexpr" -> Show \o "pf(" \o Shape(t[1], t[2], t[3], t[4], t[5], t[6]) \o ")\n"
      [] Kit = "cmp" -> Show \o "pb(" \o t[1] \o (IF t[1] = "" THEN "" ELSE "(") \o t[2].a \o " " \o t[2].o \o " " \o t[2].b \o (IF t[1] = "" THEN "" ELSE ")") \o ")\n"
      [] Kit = "arith" -> Show \o (IF t[2] \in CmpOps THEN "pb(" ELSE "pi(") \o "gi(" \o t[1] \o ") " \o t[2] \o " gi(" \o t[3] \o "))\n"
                          \o "mut l := " \o t[1] \o "\nmut m := " \o t[3] \o "\nl = gi(l)\nm = gi(m)\n"
                          \o (IF t[2] \in CmpOps THEN "pb(" ELSE "pi(") \o "l " \o t[2] \o " m)\n"
      [] Kit = "farith" -> Show \o (IF t[2] \in CmpOps THEN "pb(" ELSE "pf(") \o "gf(" \o t[1] \o ") " \o t[2] \o " gf(" \o t[3] \o "))\n"
      [] Kit = "num" -> "external pi(y: Int)\nexternal pf(y: Float)\n\fx := " \o StrCat(t) \o (IF "." \in {t[3], t[4]} \/ t[3] \in {"NaN", "Infinity"} THEN "\npf(x)\n" ELSE "\npi(x)\n")
      [] Kit = "quoted" -> "external ps(x: Str)\nexternal pr(x: Rune)\n\f" \o (IF t[1] = "'" THEN "pr(" ELSE "ps(") \o StrCat(t) \o ")\n"
      [] Kit = "places" -> Two(t[1], t[2], t[3], t[4])
      [] Kit = "near" -> "external pi(x: Int)\n\f" \o StrCat(<<Uses[t[2]][1], t[1], Uses[t[2]][2], IF Uses[t[2]][2] = "" THEN "" ELSE t[1], Uses[t[2]][3]>>)
      [] Kit = "ends" -> StrCat(<<t[1], Text(<<Small(t[2])>>), t[3]>>)
      [] Kit = "cols" -> StrCat(<<Leads[t[1]][1], Times(Leads[t[1]][2], Small(t[2])), Leads[t[1]][3], t[3]>>)
      [] Kit = "chaini" -> Globals \o Chain("pi", "Int", t[1], t[2], t[3], t[4], t[5])
      [] Kit = "chainf" -> Globals \o Chain("pf", "Float", t[1], t[2], t[3], t[4], t[5])
      [] Kit = "chainb" -> Globals \o Chain("pb", "Bool", t[1], t[2], t[3], t[4], t[5])
      [] Kit = "neg" -> Show \o StrCat(<<t[2].t, "(", t[1], t[2].v, ")\nif gb(true) {\no := ", t[1], t[2].v, "\nl := o\n", t[2].t, "(", t[1], "l)\n}\n">>)
      [] Kit = "float" -> "external pf(y: Float)\n\fx := " \o t[1] \o Whole__(t[2]) \o "." \o Part__(t[3]) \o "\npf(x)\n"
      [] Kit = "raw" -> "external ps(x: Str)\nexternal pr(x: Rune)\n\f" \o (IF t[1] = "'" THEN "pr(" ELSE "ps(") \o StrCat([t EXCEPT ![3] = Text(<<Small(t[3])>>)]) \o t[1] \o ")\n"
      [] Kit = "ctrl" -> StrCat([t EXCEPT ![4] = Text(<<Small(t[4])>>)])
      [] Kit = "placesc" -> COne(t[1], t[2], t[3], t[4])
      [] Kit = "places3" -> Three(t[1], t[2], t[3], t[4], t[5])
      [] OTHER -> StrCat(t)

----------------------------------------------------------------------------

VARIABLES txt,    \* what has been written
          depth, n
gvars == <<txt, depth, n>>

ByEdit == Kit = "edits"
ByNumber == Split(Kit)[1] = "many" \* "many.params.same": only these
ByStatement == Slots = <<>> /\ ~ByEdit /\ ~ByNumber
RECURSIVE Lines(_)
Lines(t) == IF t = <<>> THEN <<>> ELSE <<t[1], IF t[1] = "\f" THEN "" ELSE "\n">> \o Lines(Tail(t))
Whole(t) == IF ByStatement THEN StrCat(Lines(Prelude \o t)) ELSE Wrap(t)

GInit == txt = <<>> /\ depth = 0 /\ n = 0

Say(s, d) == /\ txt' = Append(txt, s) /\ depth' = d /\ n' = n + 1
             /\ (d # 0 \/ Emit("\"" \o Quote(Whole(txt')) \o "\""))
Write == /\ ByStatement /\ n < MaxLen
         /\ \/ \E s \in Plain : Say(s, depth)
            \/ depth < MaxDepth /\ \E s \in Open : Say(s, depth + 1)
Close == /\ ByStatement /\ depth > 0
         /\ txt[Len(txt)] \notin Open
         /\ txt' = Append(txt, "}") /\ depth' = depth - 1 /\ n' = n
         /\ (depth' # 0 \/ Emit("\"" \o Quote(Whole(txt')) \o "\""))
Part == /\ ~ByStatement /\ ~ByEdit /\ ~ByNumber /\ n < Len(Slots)
        /\ \E s \in Slots[n + 1] :
             /\ txt' = Append(txt, s) /\ n' = n + 1 /\ depth' = depth
             /\ (n' # Len(Slots) \/ Emit("\"" \o Quote(Whole(txt')) \o "\""))
(* one token removed, doubled, replaced, put in, or exchanged with the next *)
Out(t) == /\ txt' = t /\ n' = 1 /\ depth' = depth
          /\ Emit("\"" \o Quote(StrCat(Spaced(t))) \o "\"")
Edit == /\ ByEdit /\ n = 0
        /\ \E b \in DOMAIN Programs : LET t == Programs[b] IN
             \E p \in DOMAIN t :
                LET l == SubSeq(t, 1, p - 1)
                    r == SubSeq(t, p + 1, Len(t))
                IN \/ Out(l \o r) \/ Out(l \o <<t[p], t[p]>> \o r)
                   \/ p < Len(t) /\ Out(l \o <<r[1], t[p]>> \o Tail(r))
                   \/ \E w \in EditTokens : Out(l \o <<w>> \o r) \/ Out(l \o <<w, t[p]>> \o r)
(* something n times *)
Number == /\ ByNumber /\ n = 0
          /\ \E k \in (IF Len(Split(Kit)) = 1 THEN Kinds ELSE {Split(Kit)[q] : q \in 2 .. Len(Split(Kit))}), m \in Ns : \E f \in Faults(k), j \in Is(m) :
                txt' = <<k, m, j, f>> /\ n' = 1 /\ depth' = depth /\ Emit("\"" \o Quote(ManyText(k, m, j, f)) \o "\"")
GNext == Write \/ Close \/ Part \/ Edit \/ Number
==============================================================================
