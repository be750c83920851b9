-------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* From tokens to a tree of statements.                                     *)
(*                                                                          *)
(* ParseInit/ParseNext is a transition system: its state is the position in *)
(* the token list, a stack of the blocks being read and the diagnostics     *)
(* reported so far; one transition reads one statement, or opens or closes  *)
(* a block.  Expressions are read by recursive descent.                     *)
(***************************************************************************)
EXTENDS Lex

(* diagnostic: sev "E"/"W", code (see Messages.tla), line (0: none), column,
   args: strings for the holes of the message *)
Diag(sev, code, l, c, args) == [sev |-> sev, code |-> code, l |-> l, c |-> c, args |-> args]
ErrAt(T, i, code) == Diag("E", code, T[i].l, T[i].c, <<>>)
ErrTok(T, i, code) == Diag("E", code, T[i].l, T[i].c, <<T[i].s>>)

None == [o |-> "none"]
IdLike(k) == k \in {"id", "dotid"}

(* binary operators by the tightness of their binding; smaller is tighter *)
BinPrec(k) == CASE k = "^" -> 2
                [] k \in {"*", "/", "mod"} -> 4
                [] k \in {"+", "-"} -> 5
                [] k \in {"and", "or", "xor", "<<", ">>"} -> 6
                [] k \in {"is", "isnt", "<", ">", "<=", ">="} -> 7
BinOps == {"^", "*", "/", "mod", "+", "-", "and", "or", "xor", "<<", ">>",
           "is", "isnt", "<", ">", "<=", ">="}
UnOps == {"-", "*", "not", "&"}
UnName(k) == CASE k = "-" -> "neg" [] k = "*" -> "deref" [] k = "not" -> "not" [] k = "&" -> "ref"
UnPrec(k) == IF k = "&" THEN 0 ELSE 3
Loosest == 99
SingleKinds == {"id", "dotid", "int", "float", "bool", "rune", "str"}

----------------------------------------------------------------------------
(* Expressions.  s: [p position, e expression read, ds diagnostics, err]    *)

XFail(s, d) == [s EXCEPT !.e = None, !.ds = Append(s.ds, d), !.err = TRUE]

RECURSIVE XExpr(_, _), XSingle(_, _), XRoot(_, _), XRhs(_, _, _), XArgs(_, _, _, _)

XExpr(T, s) ==
    IF s.p > Len(T) THEN [s EXCEPT !.e = None]
    ELSE LET a == XSingle(T, s)
         IN IF a.e.o = "none" \/ a.err THEN [a EXCEPT !.e = None]
            ELSE XRhs(T, a, Loosest)

(* operand, with its unary operator if any *)
XSingle(T, s) ==
    IF s.p > Len(T) THEN [s EXCEPT !.e = None]
    ELSE LET k == T[s.p].k
             u == s.p
             s1 == [s EXCEPT !.p = u + 1]
         IN IF k \notin UnOps THEN XRoot(T, s)
            ELSE IF u + 1 > Len(T) THEN XFail(s1, ErrTok(T, u, "ExpectedExpr"))
            ELSE IF T[u+1].k \in UnOps THEN XFail(s1, ErrAt(T, u+1, "DoubleUnary"))
            ELSE LET r == XRoot(T, s1)
                 IN IF r.e.o = "none"
                    THEN IF r.err THEN r ELSE XFail(r, ErrTok(T, u, "ExpectedExpr"))
                    ELSE LET r2 == XRhs(T, r, UnPrec(k))
                         IN IF r2.err THEN [r2 EXCEPT !.e = None]
                            ELSE [r2 EXCEPT !.e = [o |-> UnName(k), r |-> r2.e, at |-> u]]

(* operators tighter than max that follow the expression read so far *)
XRhs(T, s, max) ==
    IF s.p > Len(T) THEN s
    ELSE LET k == T[s.p].k
             q == s.p
         IN IF k \in {"not", "&"} THEN XFail(s, ErrAt(T, q, "UnexpectedUnary"))
            ELSE IF k \notin BinOps THEN s
            ELSE IF BinPrec(k) >= max THEN s
            ELSE LET r == XSingle(T, [s EXCEPT !.p = q + 1, !.e = None])
                 IN IF r.e.o = "none" THEN XFail(r, ErrTok(T, q, "ExpectedExpr"))
                    ELSE LET r2 == XRhs(T, r, BinPrec(k))
                         IN IF r2.err THEN [r2 EXCEPT !.e = None]
                            ELSE XRhs(T, [r2 EXCEPT !.e = [o |-> k, l |-> s.e, r |-> r2.e, at |-> q]], max)

XRoot(T, s) ==
    LET k == T[s.p].k
        q == s.p
    IN IF k = "("
       THEN LET r == XExpr(T, [s EXCEPT !.p = q + 1])
            IN IF r.e.o = "none" THEN XFail(r, ErrTok(T, q, "InvalidExpr"))
               ELSE IF r.p > Len(T) \/ T[r.p].k # ")" THEN XFail(r, ErrAt(T, q, "MissingParen"))
               ELSE [r EXCEPT !.p = r.p + 1]
       ELSE IF IdLike(k) /\ q + 1 <= Len(T) /\ T[q+1].k = "("
       THEN XArgs(T, [s EXCEPT !.p = q + 2], q, [es |-> <<>>, at |-> <<>>])
       ELSE IF k \in SingleKinds
       THEN [s EXCEPT !.p = q + 1, !.e = [o |-> IF IdLike(k) THEN "id" ELSE "const", at |-> q]]
       ELSE [s EXCEPT !.e = None]

(* arguments so far: expressions and the tokens they start at *)
XArgs(T, s, name, args) ==
    IF s.p > Len(T) THEN XFail(s, ErrAt(T, name, "UnclosedCall"))
    ELSE IF T[s.p].k = "," THEN XFail(s, ErrAt(T, s.p, "UnexpectedComma"))
    ELSE LET r == XExpr(T, s)
             as == IF r.e.o = "none" THEN args
                   ELSE [es |-> Append(args.es, r.e), at |-> Append(args.at, s.p)]
         IN IF r.p > Len(T) THEN XFail(r, ErrAt(T, s.p, "MissingParen"))
            ELSE IF T[r.p].k = "nl" THEN XFail(r, ErrAt(T, r.p, "MissingParen"))
            ELSE IF T[r.p].k = ")"
                 THEN [r EXCEPT !.p = r.p + 1, !.e = [o |-> "call", at |-> name, args |-> as.es, starts |-> as.at]]
            ELSE IF T[r.p].k # "," THEN XFail(r, ErrAt(T, r.p, "ExpectedComma"))
            ELSE XArgs(T, [r EXCEPT !.p = r.p + 1], name, as)

(* the token an expression is reported at: that of its leftmost operand *)
RECURSIVE ExprTok(_)
ExprTok(e) == IF e.o \in {"id", "const", "call"} THEN e.at
              ELSE IF e.o \in {"neg", "deref", "not", "ref"} THEN ExprTok(e.r)
              ELSE ExprTok(e.l)

----------------------------------------------------------------------------
(* Types and parameters                                                     *)

(* index of the last token of the type starting at p, 0 if there is none *)
RECURSIVE TypeEnd(_, _)
TypeEnd(T, p) == IF p > Len(T) THEN 0
                 ELSE IF IdLike(T[p].k) THEN p
                 ELSE IF T[p].k = "&" THEN TypeEnd(T, p+1) ELSE 0

(* index after `name: Type` at p, 0 if there is no such thing *)
Typed(T, p) == IF p + 1 > Len(T) \/ T[p].k # "newid" THEN 0
               ELSE LET e == TypeEnd(T, p+1) IN IF e = 0 THEN 0 ELSE e + 1

(* <<index after the parameters, parameters>> *)
RECURSIVE Params(_, _, _)
Params(T, p, acc) ==
    LET x == Typed(T, p)
    IN IF x = 0 THEN <<p, acc>>
       ELSE IF x > Len(T) THEN <<x, acc>>
       ELSE LET acc1 == Append(acc, [name |-> T[p].s, at |-> p, ty |-> p+1])
            IN IF T[x].k # "," THEN <<x, acc1>> ELSE Params(T, x+1, acc1)

----------------------------------------------------------------------------
(* Statements.  A reading of one statement is                               *)
(* [r: "ok"/"ignore"/"err", p, n: node, ds]                                 *)

Node(t, at) == [t |-> t, at |-> at, e |-> None, x |-> <<>>, ch |-> <<>>, blk |-> FALSE]
ROk(p, n) == [r |-> "ok", p |-> p, n |-> n, ds |-> <<>>]
RIgnore == [r |-> "ignore", p |-> 0, n |-> <<>>, ds |-> <<>>]
RErr(ds) == [r |-> "err", p |-> 0, n |-> <<>>, ds |-> ds]
X0(p) == [p |-> p, e |-> None, ds |-> <<>>, err |-> FALSE]

ReadFunc(T, p) ==
    LET q == IF T[p].k \in {"external", "export"} THEN p + 1 ELSE p
        ext == T[p].k = "external"
        exp == T[p].k = "export"
        end == IF ext THEN "nl" ELSE "{"
    IN IF ~(q + 1 <= Len(T) /\ T[q].k = "id" /\ T[q+1].k = "(") THEN RIgnore
       ELSE LET ps == Params(T, q+2, <<>>)
                c == ps[1]
                proto == c # q + 2
                te == IF c + 1 <= Len(T) /\ T[c].k = ")" THEN TypeEnd(T, c+1) ELSE 0
                node(ret) == [Node("func", p) EXCEPT !.x =
                    [name |-> q, params |-> ps[2], ret |-> ret, ext |-> ext, exp |-> exp]]
            IN IF c > Len(T) THEN RErr(<<ErrAt(T, q+1, "MissingParen")>>)
               ELSE IF te # 0
               THEN IF te + 1 <= Len(T) /\ T[te+1].k = end THEN ROk(te + 1, node(c+1))
                    ELSE RErr(<<ErrAt(T, te, IF ext THEN "ExpectedNewline" ELSE "MissingOpen")>>)
               ELSE IF T[c].k = ")" /\ c + 1 <= Len(T) /\ T[c+1].k = end THEN ROk(c + 1, node(0))
               ELSE IF proto THEN RErr(<<ErrAt(T, c, "ExpectedComma")>>)
               ELSE IF ext /\ c + 1 > Len(T) THEN RErr(<<ErrAt(T, c, "ExpectedNewline")>>)
               ELSE RIgnore

ReadDef(T, p) ==
    LET q == IF T[p].k \in {"mut", "export"} THEN p + 1 ELSE p
        x == IF q > Len(T) THEN 0 ELSE Typed(T, q)
        auto == q + 1 <= Len(T) /\ T[q].k = "id" /\ T[q+1].k = ":="
        a == IF x # 0 THEN x ELSE q + 1
    IN IF q > Len(T) \/ (x = 0 /\ ~auto) THEN RIgnore
       ELSE IF x # 0 /\ (x > Len(T) \/ T[x].k # "=") THEN RErr(<<ErrAt(T, q, "MissingAssignment")>>)
       ELSE LET r == XExpr(T, X0(a + 1))
            IN IF r.err THEN RErr(r.ds)
               ELSE IF r.e.o = "none"
               THEN RErr(<<ErrAt(T, IF r.p <= Len(T) THEN r.p ELSE a, "AssignMissingExpr")>>)
               ELSE IF r.p <= Len(T) /\ T[r.p].k \notin {"nl", "comment"}
               THEN RErr(<<ErrAt(T, r.p, "ExpectedNewline")>>)
               ELSE ROk(r.p, [Node("def", p) EXCEPT !.e = r.e, !.x =
                     [name |-> q, ty |-> IF x # 0 THEN q + 1 ELSE 0, rhs |-> a + 1,
                      const |-> T[p].k # "mut", exp |-> T[p].k = "export"]])

ReadAssign(T, p) ==
    IF ~(IdLike(T[p].k) /\ p + 1 <= Len(T) /\ T[p+1].k = "=") THEN RIgnore
    ELSE LET r == XExpr(T, X0(p + 2))
         IN IF r.e.o = "none"
            THEN RErr(Append(r.ds, ErrAt(T, IF r.p <= Len(T) THEN r.p ELSE p + 1, "AssignMissingExpr")))
            ELSE ROk(r.p, [Node("assign", p) EXCEPT !.e = r.e])

ReadExpr(T, p) ==
    LET r == XExpr(T, X0(p))
    IN IF r.e.o # "none" THEN ROk(r.p, [Node("expr", p) EXCEPT !.e = r.e])
       ELSE IF r.err THEN RErr(r.ds) ELSE RErr(<<ErrTok(T, r.p, "UnexpectedToken")>>)

ReadCond(T, p) ==
    IF p + 1 > Len(T) THEN RErr(<<ErrTok(T, p, "ExpectedExpr")>>)
    ELSE LET r == XExpr(T, X0(p + 1))
         IN IF r.e.o = "none"
            THEN RErr(Append(r.ds, ErrTok(T, IF r.p <= Len(T) THEN r.p ELSE p, "InvalidExpr")))
            ELSE ROk(r.p, [Node(T[p].k, p) EXCEPT !.e = r.e])

ReadReturn(T, p) ==
    LET r == XExpr(T, X0(p + 1))
    IN IF r.err THEN RErr(r.ds) ELSE ROk(r.p, [Node("return", p) EXCEPT !.e = r.e])

ReadNamed(T, p, code) ==
    IF p + 1 <= Len(T) /\ T[p+1].k = "id" THEN ROk(p + 2, [Node(T[p].k, p) EXCEPT !.x = [name |-> p+1]])
    ELSE LET i == IF p + 1 <= Len(T) THEN p + 1 ELSE p
         IN RErr(<<IF code = "ImportIdent" THEN ErrAt(T, i, code) ELSE ErrTok(T, i, code)>>)

ReadOther(T, p) ==
    LET f == ReadFunc(T, p)
        d == ReadDef(T, p)
        a == ReadAssign(T, p)
    IN IF f.r # "ignore" THEN f ELSE IF d.r # "ignore" THEN d ELSE IF a.r # "ignore" THEN a
       ELSE ReadExpr(T, p)

ReadStmt(T, p) ==
    LET k == T[p].k
    IN CASE k = "return" -> ReadReturn(T, p)
         [] k \in {"if", "elif", "while"} -> ReadCond(T, p)
         [] k \in {"else", "unreachable", "comment", "noop", "break", "continue"} -> ROk(p + 1, Node(k, p))
         [] k = "namespace" -> ReadNamed(T, p, "UnexpectedToken")
         [] k = "import" -> ReadNamed(T, p, "ImportIdent")
         [] OTHER -> ReadOther(T, p)

----------------------------------------------------------------------------
(* ps: [p, st: stack of [ns: nodes, lead: token of a block that follows     *)
(*      nothing, or 0], ds, err, done]; the last element of st is innermost *)

ParseInit == [p |-> 1, st |-> <<[ns |-> <<>>, lead |-> 0]>>, ds |-> <<>>, err |-> FALSE, done |-> FALSE]

PFail(ps, ds) == [ps EXCEPT !.ds = ps.ds \o ds, !.err = TRUE, !.done = TRUE]

CloseBlock(T, ps) ==
    LET d == Len(ps.st)
        f == ps.st[d]
        up == ps.st[d-1]
        n == Len(up.ns)
    IN IF f.lead # 0 THEN PFail(ps, <<ErrAt(T, f.lead, "UnexpectedBlock")>>)
       ELSE IF f.ns = <<>> THEN PFail(ps, <<ErrAt(T, ps.p, "EmptyBlock")>>)
       ELSE [ps EXCEPT !.p = ps.p + 1,
                       !.st = Append(SubSeq(ps.st, 1, d-2),
                                IF n = 0 THEN [up EXCEPT !.lead = f.ns[1].at]
                                ELSE [up EXCEPT !.ns[n].ch = f.ns, !.ns[n].blk = TRUE])]

ParseNext(T, ps) ==
    LET d == Len(ps.st)
        f == ps.st[d]
        n == Len(f.ns)
    IN IF ps.p > Len(T)
       THEN IF d > 1 THEN PFail(ps, <<Diag("E", "EofBracket", 0, 0, <<>>)>>)
            ELSE IF f.lead # 0 THEN PFail(ps, <<ErrAt(T, f.lead, "UnexpectedBlock")>>)
            ELSE IF f.ns = <<>> THEN PFail(ps, <<Diag("E", "FileEmpty", 0, 0, <<>>)>>)
            ELSE [ps EXCEPT !.done = TRUE]
       ELSE CASE T[ps.p].k = "}" ->
                   IF d = 1 THEN PFail(ps, <<ErrAt(T, ps.p, "MissingOpen")>>) ELSE CloseBlock(T, ps)
              [] T[ps.p].k = "{" ->
                   IF n > 0 /\ f.ns[n].blk THEN PFail(ps, <<ErrAt(T, ps.p, "UnexpectedBlock")>>)
                   ELSE [ps EXCEPT !.p = ps.p + 1, !.st = Append(ps.st, [ns |-> <<>>, lead |-> 0])]
              [] T[ps.p].k \in {"nl", ","} -> [ps EXCEPT !.p = ps.p + 1]
              [] OTHER ->
                   LET r == ReadStmt(T, ps.p)
                   IN IF r.r # "ok" THEN PFail(ps, r.ds)
                      ELSE [ps EXCEPT !.p = r.p, !.st[d].ns = Append(f.ns, r.n)]

RECURSIVE ParseRun(_, _)
ParseRun(T, ps) == IF ps.done THEN ps ELSE ParseRun(T, ParseNext(T, ps))
ParseAll(T) == ParseRun(T, ParseInit)
Tree(ps) == ps.st[1].ns
==============================================================================
