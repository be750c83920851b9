-------------------------------- MODULE Places --------------------------------
(***************************************************************************)
(* Texts in which something stands in a place: in a block, a loop, a        *)
(* function, a namespace, one in another.  Every place has a name of its    *)
(* own (n1, n2, ...) and shows that it was entered and left; what stands    *)
(* there works on the names of the places, of what is outside of all, and   *)
(* of a namespace.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Native

OutsideOf(ns) == StrCat(<<"external pi(x: Int)\nexternal pf(x: Float)\nexternal pb(x: Bool)\nexternal gi(x: Int) Int\nexternal gb(x: Bool) Bool\nexternal gs(x: Str) Str\nexternal di(x: &Int)\n",
    "mut v := gi(1)\nmut s := gs(\"a\")\nmut r := &v\n", ns, "g(x: Int) Int {\nv = v + x\nreturn v\n}\nw() {\nv = v * 2\n}\n",
    "two(a: Int, b: Int) Int {\nreturn a * 10 + b\n}\n\f">>)

Outside == OutsideOf("namespace ns {\nmut m := 3\nk := 4\nq(x: Int) Int {\nreturn x + 1\n}\n}\n")
(* without what the C backend cannot do (see known_findings.json) *)
Plain__ == OutsideOf("")

Sorts == {"if", "elif", "else", "while", "once", "proc", "func", "args", "ns", "behind", "afterfn", "dead", "rec", "ref", "refs"}
(* what stands (t) in a place of sort c, the d-th from outside *)
Place(c, d, t) ==
    LET n == "n" \o Num(d)
        in == StrCat(<<"pi(", Num(d), "1)\n">>)
        def == StrCat(<<n, " := gi(", Num(d), "2)\n">>)
        out == StrCat(<<"pi(", Num(d), "9)\n">>)
        f == "f" \o Num(d)
    IN StrCat(CASE c = "if" -> <<"if gb(true) {\n", def, t, "}\n", out>>
         [] c = "elif" -> <<"if gb(false) {\n", n, " := 1\n}\nelif gb(true) {\n", def, t, "}\nelse {\n", in, "}\n", out>>
         [] c = "else" -> <<"if gb(false) {\nnoop\n}\nelse {\nmut ", def, t, "}\n", out>>
         [] c = "while" -> <<"mut ", n, " := 0\nwhile ", n, " < 3 {\n", n, " = ", n, " + 1\n", in, t, "}\n", out>>
         [] c = "once" -> <<"while true {\nmut ", def, t, "break\n}\n", out>>
         [] c = "proc" -> <<f, "() {\n", def, t, "}\n", f, "()\n", out, f, "()\n">>
         [] c = "func" -> <<f, "() Int {\nmut ", def, t, "return ", n, "\n}\npi(", f, "())\n">>
         [] c = "args" -> <<f, "(", n, ": Int, b: Bool) Int {\n", in, t, "return ", n, " * 2\n}\npi(", f, "(", Num(d), ", gb(true)))\n">>
         [] c = "ns" -> <<"namespace m", Num(d), " {\nmut ", def, t, "}\npi(m", Num(d), ".", n, ")\n">>
         [] c = "behind" -> <<"if gb(true) {\n", def, "pi(", n, ")\n}\nwhile gb(false) {\n", def, "}\n", def, t>>
         [] c = "afterfn" -> <<"mut ", n, " := 0\nwhile ", n, " < 2 {\n", n, " = ", n, " + 1\n", f, "(x: Int) Int {\nif x > 1 {\nreturn 1\n}\nwhile true {\nbreak\n}\nreturn x\n}\npi(", f, "(", n, "))\n", t, "}\n", out>>
         [] c = "dead" -> <<f, "() Int {\n", def, "if gb(true) {\nreturn ", n, "\n}\n", t, "return 0\n}\npi(", f, "())\n">>
         [] c = "rec" -> <<f, "(", n, ": Int) Int {\nif ", n, " < 1 {\nreturn 0\n}\n", t, "return ", n, " + ", f, "(", n, " - 1)\n}\npi(", f, "(2))\n">>
         [] c = "ref" -> <<f, "(b: &Int) Int {\n", n, " := *b\n", t, "return *b + ", n, "\n}\npi(", f, "(&v))\n">>
         [] c = "refs" -> <<n, "r := gi(", Num(d), "7)\n", f, "(x: Int, a: &Int, b: &Int) Int {\n", n, " := *b\nv = v + x\n", t, "return *a * 100 + *b + ", n, "\n}\npi(", f, "(gi(2), &v, &v))\npi(", f, "(gi(3), &", n, "r, &v))\npi(", f, "(1, &v, &", n, "r))\n">>)

Things == {
    "pi(n1)\n", "pi(n2)\n", "n1 = n1 + 1\npi(n1)\n", "n2 = n2 + 1\npi(n2)\n", "n1 := 6\npi(n1)\n", "n2 := 6\n", "mut n3 := n1 + n2\nn3 = n3 * 2\npi(n3)\n",
    "v = v + 1\n", "v := 3\n", "s = gs(\"b\")\n", "ns.m = ns.m + n2\n", "pi(ns.m)\n", "pi(ns.q(n2))\n", "ns.k = 1\n", "m = 1\n", "pi(q(1))\n", "ns.q(v)\n", "ns.v = 2\n", "pi(ns.n1)\n",
    "r = &v\npi(*r)\n", "l := &n2\npi(*l)\n", "l := n1\nmut p := &l\npi(*p)\np = &v\npi(*p)\n", "r = &n1\npi(*r)\n", "di(&v)\n", "di(&n2)\n", "l := *r\npi(l)\n",
    "break\n", "continue\n", "return\n", "return 5\n", "return n2\n", "unreachable\n", "if gb(true) {\nbreak\n}\n", "if gb(n1 > 1) {\ncontinue\n}\n", "if gb(true) {\nreturn 5\n}\n", "if gb(true) {\nreturn\n}\n",
    "if gb(false) {\nbreak\n}\nelse {\npi(3)\n}\n", "if gb(true) {\nreturn 1\n}\nelse {\nreturn 2\n}\n", "while true {\nbreak\n}\n", "while true {\nif gb(true) {\nbreak\n}\ncontinue\n}\n",
    "mut i := 0\nwhile i < 3 {\ni = i + 1\nif i is 2 {\ncontinue\n}\npi(i)\n}\n", "while true {\nreturn 8\n}\n", "while gb(false) {\npi(5)\n}\n", "while true {\nwhile true {\nbreak\n}\nbreak\n}\n",
    "h(x: Int) Int {\nif x < 1 {\nreturn 0\n}\nreturn x + h(x - 1)\n}\npi(h(3))\n", "h() {\nreturn\n}\nh()\n", "h() Int {\nwhile true {\nreturn 4\n}\nreturn 5\n}\npi(h())\n", "h() {\nwhile true {\nbreak\n}\n}\nh()\n",
    "h() Int {\nreturn v\n}\npi(h())\n", "h() Int {\nreturn n1\n}\npi(h())\n", "h() {\nn2 = 4\n}\nh()\n", "h(n2: Int) {\npi(n2)\n}\nh(3)\n", "h(v: Int) {\npi(v)\n}\nh(3)\n", "h() {\nbreak\n}\nh()\n", "h() Int {\nif gb(true) {\nreturn 1\n}\n}\npi(h())\n",
    "h() Int {\npi(n2) return 2\n}\nh()\n", "h(a: Int) Int {\nk(b: Int) Int {\nreturn b * 2\n}\nreturn k(a) + 1\n}\npi(h(3))\n", "f1()\n", "pi(f2())\n",
    "T := Int\nt: T = 7\npi(t)\n", "T := &Int\nt: T = &v\npi(*t)\n", "namespace ns {\nz := 3\n}\n", "namespace o {\nz := n1\n}\npi(o.z)\n", "namespace o {\nh() Int {\nreturn v\n}\n}\npi(o.h())\n", "pi(m1.n1)\n", "pi(m2.n2)\n",
    "pb(s is \"a\")\n", "pb((s isnt \"b\") and gb(v > 0))\n", "g(1)\nw()\n", "pi(two(g(1), g(2)))\n", "pi(two(v, g(2)))\n", "pi(g(1) - g(n2))\n", "export x := 3\npi(x)\n", "export h() {\nnoop\n}\nh()\n", "external di(x: &Int)\n", "external none()\n", "import m\n",
    "mut u := 1\nif gb(true) {\nu = 2\n}\npi(u)\n", "if gb(true) {\nu := 1\npi(u)\n}\nu := 2\npi(u)\n", "if gb(false) {\nu := 1\n}\nelse {\nu := 2\npi(u)\n}\npi(u)\n", "if gb(true) {\nif gb(false) {\nu := 1\n}\nu := 3\npi(u)\n}\n",
    "mut u := 0\nu = u + 2\npi(u)\n", "mut u := false\npb(u)\nu = true\npb(u)\n", "mut u := 0.0\nu = u + 0.5\npf(u)\n", "mut u := \"\"\npb(s is u)\nu = \"a\"\npb(s is u)\n",
    "mut u := 0\nif gb(true) {\nu = u + 1\n}\npi(u)\n", "u := 0\nmut w := u\nw = w + 1\npi(w)\n", "mut u := &v\npi(*u)\nu = &n2\npi(*u)\n",
    "mut f := 1.5\nf = f + 0.5\npf(f)\n", "noop\n", "# c\n", "pi(n1 mod 2 ^ 3)\n", "pb(n1 is 1 xor n2 < 2)\n" }
(* what follows *)
Rests == {"", "pi(77)\n", "v = v + 100\n"}

PlainEnd == "pb(s is \"b\")\npi(*r)\n"
AtEnd == "pi(v)\npi(ns.m)\n" \o PlainEnd
(* two places, three *)
Two(a, b, t, e) == StrCat(<<Outside, Place(a, 1, Place(b, 2, StrCat(<<t, e>>))), AtEnd>>)
Three(a, b, c, t, e) == StrCat(<<Outside, Place(a, 1, Place(b, 2, Place(c, 3, StrCat(<<t, e>>)))), AtEnd>>)
(* for the C backend: functions only outside of all *)
CInner == {"if", "elif", "else", "while", "once", "behind"}
CThings == {t \in Things : ~(Contains(t, "ns.") \/ Contains(t, "namespace") \/ Contains(t, "h(") \/ Contains(t, "m1.") \/ Contains(t, "m2.") \/ Contains(t, "import") \/ Contains(t, "ex"))}
COne(a, b, t, e) == StrCat(<<Plain__, Place(a, 1, Place(b, 2, StrCat(<<t, e>>))), "pi(v)\n", PlainEnd>>)
===============================================================================
