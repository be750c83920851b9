-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Long programs: a walk writes a program statement by statement, choosing  *)
(* at random, and keeps a statement only if the specification accepts the   *)
(* program so far and gives it a meaning.  Both what was kept and what was  *)
(* turned down are handed to the driver: programs that are right in a long  *)
(* history, and programs with one statement that is wrong there.            *)
(*                                                                          *)
(* Walks are independent behaviours; the choices are a function of the      *)
(* number of the walk, so that a run can be repeated.                       *)
(***************************************************************************)
EXTENDS Exec, IOUtils

Kit == IOEnv.SKULL_KIT
Walks == Small(IOEnv.SKULL_WALKS)
Tries == Small(IOEnv.SKULL_LEN)
Seed0 == Small(IOEnv.SKULL_SEED)
MaxDepth == Small(IOEnv.SKULL_DEPTH)

----------------------------------------------------------------------------
(* What the specification says about a whole text                           *)

RECURSIVE ChkAll(_, _, _), XAll(_)
ChkAll(C, tree, cs) == IF cs.done THEN cs ELSE ChkAll(C, tree, ChkNext(C, tree, cs))
XAll(x) == IF x.done \/ Len(x.ev) > 150 THEN x ELSE XAll(XNext(x))

Judge(text) ==
    LET src == Codes(text)
        l == LexAll(src)
        p == ParseAll(l.toks)
        C == [T |-> l.toks, src |-> src, werror |-> FALSE, quiet |-> TRUE, mods |-> <<>>]
        c == ChkAll(C, Tree(p), ChkInit)
        x == XAll(XInit(c.s, c.ns, 200))
    IN IF l.err # <<>> THEN "bad" ELSE IF p.err THEN "bad" ELSE IF c.s.bad \/ c.s.skip THEN "bad"
       ELSE IF x.st # "ok" \/ ~x.done THEN "open" ELSE "ok"

----------------------------------------------------------------------------
(* The material of a kit: what is declared first, statements, blocks        *)

C2(A, B) == {StrCat(<<a, b>>) : a \in A, b \in B}
C3(A, B, D) == {StrCat(<<a, b, d>>) : a \in A, b \in B, d \in D}
C4(A, B, D, F) == {StrCat(<<a, b, d, f>>) : a \in A, b \in B, d \in D, f \in F}

FlowPlain == {"pi(1)", "pi(2)", "pi(n)", "n = n + 1", "n = 0", "return 3", "return n", "return", "break", "continue", "noop", "# c", "#{ c #}", "# c\n# d", "# c\n\n#{ d #}",
              "x := n", "mut y := n", "y = y + 1", "pi(y)", "pi(x)", "f()", "pi(g(n))", "pi(g(2))", "unreachable", "return g(1)", "namespace m { noop }",
              "if tk() { pi(4) }", "if tk() { return 5 }", "else { pi(6) }", "elif tk() { pi(7) }", "else { break }", "while tk() { noop }"}
FlowOpen == {<<"if tk() {", "">>, <<"if n < 2 {", "">>, <<"elif tk() {", "">>, <<"else {", "">>, <<"while tk() {", "">>, <<"while n < 3 {", "">>,
             <<"f() {", "">>, <<"g(q: Int) Int {", "return q\n">>, <<"if tk() and gb(true) {", "">>, <<"while not tk() {", "">>,
             <<"elif n is 1 {", "">>, <<"if true {", "">>, <<"if false {", "">>, <<"while true {", "break\n">>}

(* expressions by type; the names may or may not exist, and hold any type *)
VNames == {"a", "b", "c", "d"}
VExprs == {"1", "7", "a", "b", "a + 1", "a - b", "b * 2", "gi(3)", "f(a)", "f(2)", "h()", "1.5", "c", "c + 0.5", "c * 2.0", "true", "d", "not d", "a < b", "c > 1.0",
           "\"s\"", "gs(\"t\")", "'r'", "h() - h()", "f(f(1))", "f(h())", "g(a, b)", "a is b", "d and gb(true)", "v", "v + a"}
VarPlain == C3(VNames, {" := "}, VExprs) \cup C3({"mut a := ", "mut b := ", "mut c := ", "mut d := "}, {""}, VExprs) \cup C3(VNames \cup {"v"}, {" = "}, VExprs)
            \cup C3({"a: Int = ", "b: Float = ", "mut a: Int = ", "c: Bool = "}, {""}, VExprs)
            \cup C3({"pi("}, VExprs, {")"}) \cup C3({"pf(", "pb(", "ps(", "f("}, VExprs, {")"})
            \cup {"h()", "f(1)", "return a", "return 1", "return b", "v = 1", "v = v + 1", "z()"}
VarOpen == {<<"if tk() {", "">>, <<"while tk() {", "">>, <<"f(x: Int) Int {", "return x\n">>, <<"h() Int {", "return v\n">>, <<"g(a: Int, b: Int) Int {", "return a - b\n">>,
            <<"z() {", "">>, <<"if v > 1 {", "">>, <<"else {", "">>, <<"namespace n {", "">>}

RNames == {"p", "q", "r", "s"}
RExprs == {"1", "2", "p", "q", "*p", "*q", "&p", "&q", "&r", "*r", "r", "s", "*s", "&s", "id(p)", "id(&q)", "id(r)", "get(r)", "get(&p)", "*p + 1", "p + *r", "&5", "&&p"}
RefPlain == C3(RNames, {" := "}, RExprs) \cup C3({"mut p := ", "mut q := ", "mut r := ", "mut s := "}, {""}, RExprs) \cup C3(RNames, {" = "}, RExprs)
            \cup C3({"pi(", "di("}, RExprs, {")"}) \cup C3({"r: &Int = ", "s: &&Int = ", "mut r: &Int = "}, {""}, RExprs)
            \cup {"pb(r is s)", "pb(r isnt &p)", "pb(&p is &q)", "k()", "get(r)"}
RefOpen == {<<"if tk() {", "">>, <<"while tk() {", "">>, <<"get(x: &Int) Int {", "return *x\n">>, <<"id(x: &Int) &Int {", "return x\n">>, <<"k() {", "">>,
            <<"if *r is 1 {", "">>, <<"two(x: &&Int) {", "">>, <<"else {", "">>}

(* names that are alike: equal beginnings, equal ends, equal letters in another order *)
Alike == {"a", "A", "aa", "ab", "ba", "a_b", "ab_", "n.a", "n.aa", "m.a", "n.m.a", "abcdefghijklmnopqrstuvwxyz_afa", "abcdefghijklmnopqrstuvwxyz_bdb",
          "abcdefghijklmnopqrstuvwxyz_cbc", "abcdefghijklmnopqrstuvwxyz_aga", "abcdefghijklmnopqrstuvwxy_afa", "fIe", "eJe", "gH"}
Own == Alike \ {"n.a", "n.aa", "m.a", "n.m.a"}
NameVals == {"1", "2", "3", "4", "5", "6"}
NamePlain == C3(Own, {" := "}, NameVals) \cup C3({"mut "}, Own, {" := 7"}) \cup C3(Alike, {" = "}, {"8", "9"}) \cup C3({"pi("}, Alike, {")"})
             \cup C3({"pi("}, Alike, {"())"}) \cup C3(Own, {"() Int { return 10 }"}, {""}) \cup C3(Own, {" := Int"}, {""}) \cup C3({"export "}, Own, {" := 11"})
             \cup C3({"y: "}, Alike, {" = 12"}) \cup C3({"external "}, Own, {"()"}) \cup {"pi(y)", "return a", "pi(x)"}
NameOpen == {<<"if tk() {", "">>, <<"while tk() {", "">>, <<"else {", "">>, <<"namespace n {", "">>, <<"namespace m {", "">>, <<"namespace a {", "">>,
             <<"a() {", "">>, <<"ab(x: Int) Int {", "return x\n">>, <<"f(a: Int) {", "">>, <<"f(a: Int, ab: Int) Int {", "return a\n">>}

(* every type in every place *)
TExprs == {"1", "1.5", "true", "'c'", "\"s\"", "i", "f", "b", "c", "s", "&i", "&f", "&s", "ri", "*ri", "rf", "*rf", "rri", "*rri", "fi(i)", "ff(f)", "fb(b)", "fs(s)", "fr(ri)", "frr(rri)",
           "fi(1)", "i + 1", "f + 1.5", "b and true", "i is 1", "f < 1.5", "s is \"s\"", "c is 'c'", "- i", "- f", "not b", "fv()", "i + f", "b + 1", "T", "nope", "fi"}
TNames == {"i", "f", "b", "c", "s", "ri", "rf", "rri", "x", "y"}
TTypes == {"Int", "Float", "Bool", "Rune", "Str", "&Int", "&Float", "&&Int", "&Str", "T", "&T", "U", "&U", "Void", "V"}
TypePlain == C4(TNames, {": "}, TTypes, C2({" = "}, TExprs)) \cup C3(TNames, {" := "}, TExprs) \cup C3(TNames, {" = "}, TExprs) \cup C3({"mut "}, TNames, C2({" := "}, TExprs))
             \cup C3({"pi(", "pf(", "pb(", "pr(", "ps(", "di(", "fi(", "ff(", "fb(", "fs(", "fr(", "frr(", "return "}, TExprs, {")"}) \cup C2({"return "}, TExprs)
             \cup C3({"T", "U", "V"}, {" := "}, TTypes)
TypeOpen == {<<"fi(x: Int) Int {", "return x\n">>, <<"ff(x: Float) Float {", "return x\n">>, <<"fb(x: Bool) Bool {", "return x\n">>, <<"fs(x: Str) Str {", "return x\n">>,
             <<"fr(x: &Int) &Int {", "return x\n">>, <<"frr(x: &&Int) &&Int {", "return x\n">>, <<"fv() {", "">>, <<"if tk() {", "">>, <<"while tk() {", "">>, <<"fi(x: T) T {", "return x\n">>,
             <<"fs(x: &U) &U {", "return x\n">>, <<"if b {", "">>, <<"if i {", "">>, <<"while f {", "">>}

(* what is there at the start of walk k; every other walk finds variables *)
Prelude(k) ==
    CASE Kit = "flow" -> "external pi(x: Int)\nexternal gb(x: Bool) Bool\nexternal tk() Bool\nmut n := 0\n"
      [] Kit = "vars" -> "external pi(x: Int)\nexternal pf(x: Float)\nexternal pb(x: Bool)\nexternal ps(x: Str)\nexternal gi(x: Int) Int\n"
            \o "external gb(x: Bool) Bool\nexternal gs(x: Str) Str\nexternal tk() Bool\nmut v := 1\n"
            \o (IF k % 2 = 0 THEN "h() Int { v = v + 1 return v }\nf(x: Int) Int { v = v + x return v }\nmut a := 3\n" ELSE "")
      [] Kit = "refs" -> "external pi(x: Int)\nexternal pb(x: Bool)\nexternal di(x: &Int)\nexternal tk() Bool\n"
            \o (IF k % 3 = 0 THEN "mut p := 1\nmut q := 2\nmut r := &p\nmut s := &q\n" ELSE IF k % 3 = 1 THEN "mut p := 1\nmut q := &p\ns := &q\n" ELSE "")
      [] Kit = "names" -> "external pi(x: Int)\nexternal tk() Bool\n"
      [] Kit = "types" -> "external pi(x: Int)\nexternal pf(x: Float)\nexternal pb(x: Bool)\nexternal pr(x: Rune)\nexternal ps(x: Str)\nexternal di(x: &Int)\nexternal tk() Bool\n"
            \o (IF k % 2 = 0 THEN "mut i := 4\nmut f := 2.5\nmut b := true\nmut c := 'z'\nmut s := \"q\"\nmut ri := &i\nmut rf := &f\nmut rri := &ri\n" ELSE "")
PlainSeq == Listed(CASE Kit = "flow" -> FlowPlain [] Kit = "vars" -> VarPlain [] Kit = "refs" -> RefPlain [] Kit = "names" -> NamePlain [] Kit = "types" -> TypePlain)
OpenSeq == Listed(CASE Kit = "flow" -> FlowOpen [] Kit = "vars" -> VarOpen [] Kit = "refs" -> RefOpen [] Kit = "names" -> NameOpen [] Kit = "types" -> TypeOpen)

----------------------------------------------------------------------------

VARIABLES w,      \* which walk
          seed,   \* of the choices to come
          n,      \* tries so far
          text,   \* statements kept
          open    \* what its open blocks need before their end, innermost first
wvars == <<w, seed, n, text, open>>

Rnd(s) == (s * 1103 + 12345) % 999983
Times(s, k) == IF k = 0 THEN s ELSE Rnd(s)

WInit == /\ w \in 1..Walks
         /\ seed = Rnd(Rnd((w * 977 + Seed0 * 7919) % 999983))
         /\ n = 0 /\ text = "" /\ open = <<>>

(* the ways to end the open blocks *)
RECURSIVE Ends(_)
Ends(o) == IF o = <<>> THEN <<"", "", "">>
           ELSE LET r == Ends(Tail(o))
                IN <<StrCat(<<o[1], "}\n", r[1]>>), StrCat(<<"}\n", r[1]>>), StrCat(<<"noop\n}\n", r[1]>>)>>

Try(s, o) ==
    LET t == StrCat(<<text, s, "\n">>)
        es == Ends(o)
        pre == Prelude(w)
        full(k) == StrCat(<<pre, t, es[k]>>)
        j1 == Judge(full(1))
        j2 == Judge(full(2))
        j3 == Judge(full(3))
        pick == IF j1 = "ok" \/ o = <<>> THEN <<1, j1>>
                ELSE IF es[2] # es[1] /\ j2 = "ok" THEN <<2, j2>>
                ELSE IF j3 = "ok" THEN <<3, j3>> ELSE <<1, j1>>
    IN \E q \in {pick} :
         /\ Emit(StrCat(<<"[\"", Quote(full(q[1])), "\",\"", q[2], "\",", Num(n), ",", Num(w), "]">>))
         /\ IF q[2] = "ok" THEN text' = t /\ open' = o ELSE UNCHANGED <<text, open>>

WNext ==
    /\ n < Tries
    /\ n' = n + 1 /\ seed' = Rnd(Rnd(seed)) /\ w' = w
    /\ LET a == seed
           b == Rnd(seed)
           kind == (a \div 7) % 10
       IN IF kind < 2 /\ Len(open) < MaxDepth
          THEN LET q == OpenSeq[(b % Len(OpenSeq)) + 1] IN Try(q[1], <<q[2]>> \o open)
          ELSE IF kind < 4 /\ open # <<>>
          THEN Try(IF a % 2 = 0 THEN StrCat(<<open[1], "}">>) ELSE "}", Tail(open))
          ELSE Try(PlainSeq[(b % Len(PlainSeq)) + 1], open)

View == <<w, n>>
==============================================================================
