-------------------------------- MODULE Check --------------------------------
(***************************************************************************)
(* Static semantics: names, types, flow.  ChkInit/ChkNext is a transition   *)
(* system over the statements of the top level; its state holds the symbols *)
(* declared so far, the scopes that are open, and the diagnostics.          *)
(*                                                                          *)
(* The statements come out elaborated: every name is replaced by the number *)
(* of the symbol it stands for, every literal by its value, and every       *)
(* expression carries its type.                                             *)
(*                                                                          *)
(* C: [T: tokens, src: text, werror, quiet, mods: modules that exist]       *)
(***************************************************************************)
EXTENDS Lit

(* a type is <<number of references, base type>> *)
INT == <<0, "Int">>  FLOAT == <<0, "Float">>  BOOL == <<0, "Bool">>
RUNE == <<0, "Rune">>  STR == <<0, "Str">>  VOID == <<0, "Void">>  NOTYPE == <<0, "">>
RECURSIVE TyName(_)
TyName(t) == IF t[1] = 0 THEN t[2] ELSE "&" \o TyName(<<t[1] - 1, t[2]>>)
RefTo(t) == IF t = NOTYPE THEN NOTYPE ELSE <<t[1] + 1, t[2]>>
Inner(t) == <<t[1] - 1, t[2]>>
IsRef(t) == t[1] > 0
Numeric(t) == t \in {INT, FLOAT}

Blocky == {"if", "elif", "else", "while", "func", "namespace"}
Unary == {"neg", "not", "ref", "deref"}

S0 == [ds |-> <<>>, bad |-> FALSE, skip |-> FALSE, syms |-> <<>>, sc |-> << <<>> >>,
       fn |-> 0, loop |-> 0, read |-> {}, reas |-> {}, called |-> {}]

Say(S, d) == [S EXCEPT !.ds = Append(S.ds, d), !.bad = TRUE]
Err(C, S, i, code, args) == Say(S, Diag("E", code, C.T[i].l, C.T[i].c, args))
Err0(S, code, args) == Say(S, Diag("E", code, 0, 0, args))
Warn(C, S, i, code, args) ==
    [S EXCEPT !.ds = Append(S.ds, Diag("W", code, IF i = 0 THEN 0 ELSE C.T[i].l,
                                       IF i = 0 THEN 0 ELSE C.T[i].c, args)),
              !.bad = S.bad \/ C.werror]

----------------------------------------------------------------------------
(* Names                                                                    *)

(* symbol of a plain name, innermost scope first; 0 if there is none *)
FindPlain(S, n) ==
    LET I == {i \in DOMAIN S.sc : n \in DOMAIN S.sc[i]}
    IN IF I = {} THEN 0 ELSE S.sc[MaxOf(I)][n]
(* symbol of the path parts[k..] among the members of the symbol id *)
RECURSIVE FindMember(_, _, _, _)
FindMember(S, id, parts, k) ==
    IF k > Len(parts) THEN id
    ELSE IF id = 0 THEN 0
    ELSE IF S.syms[id].kind # "namespace" \/ parts[k] \notin DOMAIN S.syms[id].mem THEN 0
    ELSE FindMember(S, S.syms[id].mem[parts[k]], parts, k + 1)
Find(S, name) == LET p == Split(name) IN FindMember(S, FindPlain(S, p[1]), p, 2)

(* the type written at token i, NOTYPE if it is none *)
RECURSIVE TypeAt(_, _, _)
TypeAt(C, S, i) ==
    IF i > Len(C.T) THEN NOTYPE
    ELSE IF IdLike(C.T[i].k)
    THEN LET id == Find(S, C.T[i].s)
         IN IF id # 0 /\ S.syms[id].kind = "type alias" THEN S.syms[id].ty
            ELSE IF C.T[i].s \in BuiltinTypes THEN <<0, C.T[i].s>> ELSE NOTYPE
    ELSE IF C.T[i].k = "&" THEN RefTo(TypeAt(C, S, i + 1))
    ELSE NOTYPE

Sym(kind, name, at, ty, S) ==
    [kind |-> kind, name |-> name, at |-> at, ty |-> ty, const |-> TRUE, exp |-> FALSE,
     fn |-> S.fn, ps |-> <<>>, ext |-> FALSE, mem |-> <<>>, depth |-> Len(S.sc)]

(* no name is declared twice where the first declaration is visible *)
AddSym(C, S, y) ==
    LET old == FindPlain(S, y.name)
        k == IF old # 0 THEN S.syms[old].kind
             ELSE IF y.name \in BuiltinTypes THEN "type alias" ELSE ""
        id == Len(S.syms) + 1
        top == Len(S.sc)
    IN IF k = ""
       THEN [S EXCEPT !.syms = Append(S.syms, y), !.sc[top] = (y.name :> id) @@ S.sc[top]]
       ELSE IF k # y.kind \/ k = "namespace"
       THEN Err(C, S, y.at, "RedefineAs", <<k, y.name, y.kind>>)
       ELSE Err(C, S, y.at, CASE k = "variable" -> "VarDefined" [] k = "type alias" -> "AliasDefined"
                              [] k = "function" -> "FuncDefined", <<y.name>>)

----------------------------------------------------------------------------
(* Expressions: ChkE returns [s, e]                                         *)

Ret(S, e) == [s |-> S, e |-> e]
TypeErr(C, S, i, want, got) == Err(C, S, i, "SameType", <<TyName(want), TyName(got)>>)

(* what an operator asks of its (right) operand *)
Restrict(C, S, e, r, i) ==
    LET t == r.ty
        numeric == IF Numeric(t) THEN S ELSE Err(C, S, i, "NotNumeric", <<>>)
    IN CASE e.o \in {"+", "-", "*", "neg", "<", ">", "<=", ">="} -> numeric
         [] e.o \in {"/", "mod"} ->
              IF r.o = "const" /\ t = INT /\ r.v = "0" THEN Err(C, S, r.at, "DivByZero", <<>>) ELSE numeric
         [] e.o = "^" -> IF Numeric(t) THEN S ELSE Err0(S, "PowType", <<TyName(t)>>)
         [] e.o \in {"<<", ">>"} -> IF t = INT THEN S ELSE Err(C, S, i, "NotInt", <<>>)
         [] e.o \in {"not", "and", "or", "xor"} ->
              IF t = BOOL THEN S ELSE TypeErr(C, S, i, BOOL, t)
         [] e.o \in {"is", "isnt"} ->
              IF t # VOID THEN S ELSE Err(C, S, i, "InvalidExpr", <<C.T[i].s>>)
         [] e.o = "ref" -> IF r.o = "id" THEN S ELSE Err(C, S, i, "RefIdent", <<>>)
         [] e.o = "deref" -> IF r.o = "id" /\ IsRef(t) /\ Inner(t) # VOID THEN S
                             ELSE Err(C, S, i, "CannotDeref", <<>>)

ResultTy(o, t) ==
    CASE o \in {"not", "is", "isnt", "<", ">", "<=", ">=", "and", "or", "xor"} -> BOOL
      [] o = "ref" -> RefTo(t)
      [] o = "deref" -> Inner(t)
      [] OTHER -> t

ChkLit(C, S, e) ==
    LET t == C.T[e.at]
        v == Literal(C.src, t)
    IN IF ~v.ok THEN Ret(Err(C, S, e.at, v.code, v.args), e)
       ELSE Ret([S EXCEPT !.skip = S.skip \/ v.odd],
                [o |-> "const", at |-> e.at, ty |-> <<0, LitTy(t.k)>>, v |-> v.v])

(* the variable named by token i *)
FindVar(C, S, i) ==
    LET id == Find(S, C.T[i].s)
    IN IF id = 0 \/ S.syms[id].kind # "variable"
       THEN [s |-> Err(C, S, i, "VarNotFound", <<C.T[i].s>>), id |-> 0]
       (* functions do not capture the variables of functions they are in *)
       ELSE [s |-> IF S.syms[id].fn \notin {0, S.fn} THEN [S EXCEPT !.skip = TRUE] ELSE S, id |-> id]

ChkId(C, S, e) ==
    LET f == FindVar(C, S, e.at)
    IN IF f.s.bad THEN Ret(f.s, e)
       ELSE Ret([f.s EXCEPT !.read = @ \cup {f.id}],
                [o |-> "id", at |-> e.at, ty |-> S.syms[f.id].ty, sym |-> f.id])

RECURSIVE ChkE(_, _, _), ChkArgs(_, _, _, _, _)

ChkCall(C, S, e) ==
    LET id == Find(S, C.T[e.at].s)
        y == S.syms[id]
        S1 == [S EXCEPT !.called = @ \cup {id}]
    IN IF id = 0 THEN Ret(Err(C, S, e.at, "NoFunction", <<C.T[e.at].s>>), e)
       ELSE IF y.kind # "function" THEN Ret(Err(C, S, e.at, "NoFunction", <<C.T[e.at].s>>), e)
       ELSE IF Len(y.ps) # Len(e.args) THEN Ret(Err(C, S1, e.at, "NumParams", <<>>), e)
       ELSE LET a == ChkArgs(C, S1, e, y, <<>>)
            IN IF a.s.bad THEN Ret(a.s, e)
               ELSE Ret(a.s, [o |-> "call", at |-> e.at, ty |-> y.ty, sym |-> id, args |-> a.as])

ChkArgs(C, S, e, y, acc) ==
    LET k == Len(acc) + 1
    IN IF k > Len(e.args) THEN [s |-> S, as |-> acc]
       ELSE LET a == ChkE(C, S, e.args[k])
            IN IF a.s.bad THEN [s |-> a.s, as |-> acc]
               ELSE IF a.e.ty # y.ps[k]
               THEN [s |-> Err(C, a.s, e.starts[k], "ParamType", <<TyName(y.ps[k]), TyName(a.e.ty)>>), as |-> acc]
               ELSE ChkArgs(C, a.s, e, y, Append(acc, a.e))

ChkE(C, S, e) ==
    CASE e.o = "const" -> ChkLit(C, S, e)
      [] e.o = "id" -> ChkId(C, S, e)
      [] e.o = "call" -> ChkCall(C, S, e)
      [] e.o \in Unary ->
           LET r == ChkE(C, S, e.r)
               S1 == Restrict(C, r.s, e, r.e, ExprTok(e))
           IN IF r.s.bad THEN r ELSE IF S1.bad THEN Ret(S1, e)
              ELSE Ret(S1, [o |-> e.o, at |-> e.at, r |-> r.e, ty |-> ResultTy(e.o, r.e.ty)])
      [] OTHER ->
           LET r == ChkE(C, S, e.r)
               l == ChkE(C, r.s, e.l)
               S1 == Restrict(C, l.s, e, r.e, ExprTok(e))
           IN IF r.s.bad THEN r
              ELSE IF l.s.bad THEN l
              ELSE IF l.e.ty # r.e.ty THEN Ret(TypeErr(C, l.s, ExprTok(e.r), l.e.ty, r.e.ty), e)
              ELSE IF S1.bad THEN Ret(S1, e)
              ELSE Ret(S1, [o |-> e.o, at |-> e.at, l |-> l.e, r |-> r.e, ty |-> ResultTy(e.o, r.e.ty)])

----------------------------------------------------------------------------
(* Statements: ChkStmt returns [s, n] with n = [t, at, e, ch, sym]          *)

Elab(n, e, ch, sym) == [t |-> n.t, at |-> n.at, e |-> e, ch |-> ch, sym |-> sym]
RetN(S, n) == [s |-> S, n |-> n]

Sane(C, S, n) ==
    IF n.ch # <<>> /\ n.t \notin Blocky THEN Err(C, S, n.ch[1].at, "UnexpectedBlock", <<>>) ELSE S

(* nothing but comments, noop and unreachable may follow a jump *)
NoDeadCode(C, S, ns, i) ==
    LET D == {j \in (i+1)..Len(ns) : ns[j].t \notin {"comment", "unreachable", "noop"}}
    IN IF D = {} THEN S ELSE Err(C, S, ns[CHOOSE j \in D : \A k \in D : j <= k].at, "DeadCode", <<>>)

(* an else or elif continues the if (or elif) before it, comments aside *)
FollowsIf(ns, i) ==
    LET P == {j \in 1..(i-1) : ns[j].t # "comment"}
    IN P # {} /\ ns[MaxOf(P)].t \in {"if", "elif"}

NeedIf(C, S, ns, i) == IF S.bad \/ FollowsIf(ns, i) THEN S ELSE Err(C, S, ns[i].at, "MissingIf", <<>>)
NeedBlock(C, S, n) == IF S.bad \/ n.ch # <<>> THEN S ELSE Err(C, S, n.at, "MissingBlock", <<n.t>>)

RECURSIVE ChkList(_, _, _, _, _), ChkStmt(_, _, _, _), ChkParams(_, _, _, _, _)

Push(S) == [S EXCEPT !.sc = Append(@, <<>>)]
Pop(S) == [S EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]

(* [s, ns, mem: the names declared in the block] *)
ChkBlock(C, S, ch) ==
    LET r == ChkList(C, Push(S), ch, 1, <<>>)
    IN [s |-> IF r.s.bad THEN r.s ELSE Pop(r.s), ns |-> r.ns, mem |-> r.s.sc[Len(r.s.sc)]]

ChkList(C, S, ns, i, acc) ==
    IF i > Len(ns) THEN [s |-> S, ns |-> acc]
    ELSE LET r == ChkStmt(C, S, ns, i)
         IN IF r.s.bad THEN [s |-> r.s, ns |-> acc]
            ELSE ChkList(C, r.s, ns, i + 1, Append(acc, r.n))

ChkCond(C, S, e) ==
    LET r == ChkE(C, S, e)
    IN IF r.s.bad THEN r
       ELSE IF r.e.ty # BOOL THEN Ret(Err(C, r.s, ExprTok(e), "NonBool", <<>>), e)
       ELSE IF r.e.o = "const"
       THEN Ret(Warn(C, r.s, ExprTok(e), IF r.e.v THEN "AlwaysTrue" ELSE "AlwaysFalse", <<>>), r.e)
       ELSE r

(* S has already been through the checks that come before the condition *)
ChkGuarded(C, S, n, cond) ==
    LET c == IF cond THEN ChkCond(C, S, n.e) ELSE Ret(S, n.e)
        b == ChkBlock(C, c.s, n.ch)
    IN IF S.bad THEN RetN(S, n) ELSE IF c.s.bad THEN RetN(c.s, n)
       ELSE RetN(b.s, Elab(n, c.e, b.ns, 0))

ChkWhile(C, S, n) ==
    LET r == ChkGuarded(C, NeedBlock(C, [S EXCEPT !.loop = @ + 1], n), n, TRUE)
    IN RetN([r.s EXCEPT !.loop = S.loop], r.n)

ChkReturn(C, S0_, ns, i) ==
    LET n == ns[i]
        S == IF i < Len(ns) THEN Sane(C, S0_, ns[i+1]) ELSE S0_
        has == n.e.o # "none"
        r == IF has THEN ChkE(C, S, n.e) ELSE Ret(S, n.e)
        want == IF S.fn = 0 THEN INT ELSE S.syms[S.fn].ty
        k == ExprTok(n.e)
        fit == IF ~has THEN IF want # VOID THEN Err(C, r.s, n.at, "ReturnMissing", <<>>) ELSE r.s
               ELSE IF S.fn = 0 /\ r.e.ty # INT THEN Err(C, r.s, k, "NonIntMain", <<C.T[k].s>>)
               ELSE IF want = VOID THEN Err0(r.s, "VoidReturn", <<S.syms[S.fn].name>>)
               ELSE IF r.e.ty # want THEN TypeErr(C, r.s, k, want, r.e.ty)
               ELSE r.s
    IN IF S.bad THEN RetN(S, n) ELSE IF r.s.bad THEN RetN(r.s, n) ELSE IF fit.bad THEN RetN(fit, n)
       ELSE RetN(NoDeadCode(C, fit, ns, i), Elab(n, r.e, <<>>, 0))

ChkJump(C, S, ns, i) ==
    LET n == ns[i]
    IN IF n.t # "unreachable" /\ S.loop = 0
       THEN RetN(Err(C, S, n.at, IF n.t = "break" THEN "BreakOutside" ELSE "ContinueOutside", <<>>), n)
       ELSE RetN(NoDeadCode(C, S, ns, i), Elab(n, n.e, <<>>, 0))

(* control never gets past these statements (a namespace is no block of its own) *)
RECURSIVE HasJump(_)
HasJump(ns) == \E k \in DOMAIN ns : \/ ns[k].t \in {"return", "unreachable", "break", "continue"}
                                    \/ ns[k].t = "namespace" /\ HasJump(ns[k].ch)

ChkNamespace(C, S, ns, i) ==
    LET n == ns[i]
        S1 == NeedBlock(C, S, n)
        S2 == AddSym(C, S1, Sym("namespace", C.T[n.x.name].s, n.x.name, NOTYPE, S1))
        id == Len(S2.syms)
        b == ChkBlock(C, S2, n.ch)
    IN IF S1.bad THEN RetN(S1, n) ELSE IF S2.bad THEN RetN(S2, n) ELSE IF b.s.bad THEN RetN(b.s, n)
       ELSE RetN(IF HasJump(n.ch) THEN NoDeadCode(C, [b.s EXCEPT !.syms[id].mem = b.mem], ns, i) ELSE [b.s EXCEPT !.syms[id].mem = b.mem],
                 Elab(n, n.e, b.ns, id))

ChkAlias(C, S, n) ==
    LET ty == TypeAt(C, S, n.x.rhs)
    IN IF ~n.x.const THEN Err(C, S, n.at + 1, "MutAlias", <<>>)
       ELSE IF n.x.ty # 0 \/ n.e.o \notin {"id", "ref"} THEN Err(C, S, n.x.rhs, "TypeExpr", <<>>)
       ELSE AddSym(C, S, Sym("type alias", C.T[n.x.name].s, n.x.name, ty, S))

ChkDef(C, S, n) ==
    IF TypeAt(C, S, n.x.rhs) # NOTYPE
    THEN RetN(ChkAlias(C, S, n), [Elab(n, n.e, <<>>, 0) EXCEPT !.t = "alias"])
    ELSE LET r == ChkE(C, S, n.e)
             name == C.T[n.x.name].s
             ty == IF n.x.ty # 0 THEN TypeAt(C, r.s, n.x.ty) ELSE r.e.ty
             S2 == AddSym(C, r.s, [Sym("variable", name, n.x.name, ty, r.s) EXCEPT
                                     !.const = n.x.const, !.exp = n.x.exp])
             id == Len(S2.syms)
             S3 == IF n.x.ty # 0 /\ r.e.o = "const" THEN Warn(C, S2, 0, "TrivialType", <<TyName(ty)>>) ELSE S2
         IN IF r.s.bad THEN RetN(r.s, n)
            ELSE IF r.e.o = "call" /\ r.e.ty = VOID THEN RetN(Err(C, r.s, r.e.at, "VoidAssign", <<name>>), n)
            ELSE IF ty = NOTYPE THEN RetN(Err(C, r.s, n.x.ty, "TypeNotFound", <<C.T[n.x.ty].s>>), n)
            ELSE IF S2.bad THEN RetN(S2, n)
            ELSE IF ty # r.e.ty THEN RetN(TypeErr(C, S2, ExprTok(n.e), ty, r.e.ty), n)
            ELSE RetN(S3, Elab(n, r.e, <<>>, id))

ChkAssign(C, S, n) ==
    LET f == FindVar(C, S, n.at)
        y == S.syms[f.id]
        r == ChkE(C, [f.s EXCEPT !.reas = @ \cup {f.id}], n.e)
    IN IF f.s.bad THEN RetN(f.s, n)
       ELSE IF y.const THEN RetN(Err(C, f.s, n.at, "ReassignConst", <<C.T[n.at].s>>), n)
       ELSE IF r.s.bad THEN RetN(r.s, n)
       ELSE IF y.ty # r.e.ty THEN RetN(TypeErr(C, r.s, ExprTok(n.e), y.ty, r.e.ty), n)
       ELSE IF r.e.o = "id" /\ r.e.sym = f.id THEN RetN(Err(C, r.s, r.e.at, "Redundant", <<C.T[r.e.at].s>>), n)
       ELSE RetN(r.s, Elab(n, r.e, <<>>, f.id))

ChkParams(C, S, ps, k, tys) ==
    IF k > Len(ps) THEN [s |-> S, tys |-> tys]
    ELSE LET p == ps[k]
             ty == TypeAt(C, S, p.ty)
         IN IF ty \in {NOTYPE, VOID}
            THEN [s |-> Err(C, S, p.ty, "TypeNotFound", <<C.T[p.ty].s>>), tys |-> tys]
            ELSE IF FindPlain(S, p.name) # 0 THEN [s |-> Err(C, S, p.at, "Shadow", <<p.name>>), tys |-> tys]
            ELSE ChkParams(C, AddSym(C, S, Sym("variable", p.name, p.at, ty, S)), ps, k + 1, Append(tys, ty))

ChkFunc(C, S, n) ==
    LET x == n.x
        name == C.T[x.name].s
        ret == IF x.ret = 0 THEN VOID ELSE TypeAt(C, S, x.ret)
        S1 == AddSym(C, S, [Sym("function", name, x.name, ret, S) EXCEPT !.ext = x.ext, !.exp = x.exp])
        id == Len(S1.syms)
        p == ChkParams(C, Push([S1 EXCEPT !.fn = id, !.loop = 0]), x.params, 1, <<>>)
        S2 == [p.s EXCEPT !.syms[id].ps = p.tys]
        b == ChkList(C, S2, n.ch, 1, <<>>)
        J == {j \in DOMAIN n.ch : n.ch[j].t \in {"return", "unreachable"}}
        first == n.ch[CHOOSE j \in J : \A k \in J : j <= k]
        returns == J # {} /\ first.t = "return" /\ first.e.o # "none"
        S3 == [Pop(b.s) EXCEPT !.fn = S.fn, !.loop = S.loop]
    IN IF (x.ext \/ x.exp) /\ Len(S.sc) > 1 THEN RetN(Err(C, S, x.name, "Nested", <<name>>), n)
       ELSE IF ret = NOTYPE THEN RetN(Err(C, S, x.ret, "TypeNotFound", <<C.T[x.ret].s>>), n)
       ELSE IF S1.bad THEN RetN(S1, n)
       ELSE IF p.s.bad THEN RetN(p.s, n)
       ELSE IF b.s.bad THEN RetN(b.s, n)
       ELSE IF ~x.ext /\ ret # VOID /\ ~returns THEN RetN(Err0(S3, "ExpectedReturn", <<name>>), n)
       ELSE RetN(S3, [t |-> "func", at |-> n.at, e |-> n.e, ch |-> b.ns, sym |-> id,
                      ps |-> [k \in DOMAIN x.params |-> id + k]])

ChkImport(C, S, n) ==
    LET m == C.T[n.x.name].s
    IN IF \E k \in DOMAIN C.mods : C.mods[k] = m THEN S
       ELSE Err0(S, "LoadModule", <<m, "No such file or directory">>)

ChkStmt(C, S, ns, i) ==
    LET n == ns[i]
        S1 == Sane(C, S, n)
    IN IF S1.bad THEN RetN(S1, n)
       ELSE CASE n.t = "return" -> ChkReturn(C, S, ns, i)
              [] n.t \in {"unreachable", "break", "continue"} -> ChkJump(C, S, ns, i)
              [] n.t = "func" -> ChkFunc(C, S, n)
              [] n.t = "def" -> ChkDef(C, S, n)
              [] n.t = "assign" -> ChkAssign(C, S, n)
              [] n.t = "expr" ->
                   IF n.e.o # "call" THEN RetN(Err(C, S, n.at, "Dangling", <<>>), n)
                   ELSE LET r == ChkCall(C, S, n.e) IN RetN(r.s, Elab(n, r.e, <<>>, 0))
              [] n.t = "if" -> ChkGuarded(C, NeedBlock(C, S, n), n, TRUE)
              [] n.t = "elif" -> ChkGuarded(C, NeedIf(C, NeedBlock(C, S, n), ns, i), n, TRUE)
              [] n.t = "else" -> ChkGuarded(C, NeedBlock(C, NeedIf(C, S, ns, i), n), n, FALSE)
              [] n.t = "while" -> ChkWhile(C, S, n)
              [] n.t = "namespace" -> ChkNamespace(C, S, ns, i)
              [] n.t = "import" -> RetN(ChkImport(C, S, n), Elab(n, n.e, <<>>, 0))
              [] OTHER -> RetN(S, Elab(n, n.e, <<>>, 0))

----------------------------------------------------------------------------
(* Names that nothing uses                                                  *)

RECURSIVE Unused(_, _, _, _)
Unused(C, S, ns, i) ==
    IF i > Len(ns) THEN S
    ELSE LET n == ns[i]
             y == S.syms[n.sym]
             S1 == IF n.t = "def"
                   THEN LET a == IF ~y.const /\ n.sym \notin S.reas THEN Warn(C, S, y.at, "NotConst", <<y.name>>) ELSE S
                        IN IF n.sym \notin S.read /\ ~y.exp THEN Warn(C, a, y.at, "VarUnused", <<y.name>>) ELSE a
                   ELSE IF n.t = "func"
                   THEN IF n.sym \notin S.called THEN Warn(C, S, y.at, "FuncUnused", <<y.name>>) ELSE S
                   ELSE Unused(C, S, n.ch, 1)
         IN Unused(C, S1, ns, i + 1)

----------------------------------------------------------------------------
(* cs: [s: S, i: next statement, ns: elaborated, done]                      *)

ChkInit == [s |-> S0, i |-> 1, ns |-> <<>>, done |-> FALSE]
ChkNext(C, tree, cs) ==
    IF cs.i > Len(tree)
    THEN [cs EXCEPT !.done = TRUE, !.s = IF C.quiet THEN cs.s ELSE Unused(C, cs.s, cs.ns, 1)]
    ELSE LET r == ChkStmt(C, cs.s, tree, cs.i)
         IN IF r.s.bad THEN [cs EXCEPT !.s = r.s, !.done = TRUE]
            ELSE [cs EXCEPT !.s = r.s, !.i = cs.i + 1, !.ns = Append(@, r.n)]
==============================================================================
