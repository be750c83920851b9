-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* What a program does when it runs.  XInit/XNext is a transition system    *)
(* over the statements of the top level; a statement is executed by         *)
(* structural recursion.                                                    *)
(*                                                                          *)
(* What can be observed of a program are the calls it makes to external     *)
(* functions, in order, with their arguments (ev), and its exit status.     *)
(* st = "unspec" once an operation was carried out to which the language    *)
(* gives no meaning (overflow, division by zero, a dead reference, ...).    *)
(*                                                                          *)
(* haz is set when an operation was carried out on which the C backend is   *)
(* known to differ, because it leaves it to the C compiler (see Haz below). *)
(***************************************************************************)
EXTENDS Messages

(* store: variables that exist, a stack of [id, v]; ids are never reused.   *)
(* env: symbol |-> index in store.  fns: symbol |-> function.               *)
(* what the C backend cannot express at all: see Haz *)
RECURSIVE Nested(_, _, _)
Nested(ns, t, top) == \E k \in DOMAIN ns : (ns[k].t = t /\ ~top) \/ Nested(ns[k].ch, t, FALSE)
RECURSIVE HasDeref(_), DerefGlobal(_)
HasDeref(e) == CASE e.o = "deref" -> TRUE [] e.o \in {"const", "id", "ref"} -> FALSE
                 [] e.o = "call" -> \E k \in DOMAIN e.args : HasDeref(e.args[k])
                 [] e.o \in {"neg", "not"} -> HasDeref(e.r) [] OTHER -> HasDeref(e.l) \/ HasDeref(e.r)
(* a variable of the program as a whole that starts with what a reference shows *)
DerefGlobal(ns) == \E k \in DOMAIN ns : (ns[k].t = "def" /\ HasDeref(ns[k].e)) \/ (ns[k].t = "namespace" /\ DerefGlobal(ns[k].ch))
StaticHaz(ns) == (IF DerefGlobal(ns) THEN {"global from a reference"} ELSE {}) \cup (IF Nested(ns, "func", TRUE) THEN {"nested function"} ELSE {})
                 \cup (IF Nested(ns, "namespace", FALSE) THEN {"namespace"} ELSE {})
XInit(S, ns, fuel) ==
    [S |-> S, ns |-> ns, i |-> 1, took |-> FALSE,
     ev |-> <<>>, store |-> <<>>, ids |-> 0, env |-> <<>>, fns |-> <<>>,
     tick |-> 0, ctl |-> "next", rv |-> "0", fuel |-> fuel, depth |-> 0, st |-> "ok", why |-> "", haz |-> StaticHaz(ns),
     open |-> <<>>, done |-> FALSE]

Unspec(x, why) == [x EXCEPT !.st = "unspec", !.why = why]
XV(x, v) == [x |-> x, v |-> v]
XBad(x, why) == XV(Unspec(x, why), "")
Hazard(x, b, why) == IF b THEN [x EXCEPT !.haz = @ \cup {why}] ELSE x

----------------------------------------------------------------------------
(* External functions the environment provides: name, parameter, result     *)

ExtSig == [pi |-> <<INT, VOID>>, pf |-> <<FLOAT, VOID>>, pb |-> <<BOOL, VOID>>,
           pr |-> <<RUNE, VOID>>, ps |-> <<STR, VOID>>,
           gi |-> <<INT, INT>>, gf |-> <<FLOAT, FLOAT>>, gb |-> <<BOOL, BOOL>>,
           gr |-> <<RUNE, RUNE>>, gs |-> <<STR, STR>>,
           di |-> << <<1, "Int">>, VOID>>, df |-> << <<1, "Float">>, VOID>>]

Tag(n) == CASE n = "pi" -> "I " [] n = "pf" -> "F " [] n = "pb" -> "B " [] n = "pr" -> "R "
            [] n = "ps" -> "S " [] n = "gi" -> "i " [] n = "gf" -> "f " [] n = "gb" -> "b "
            [] n = "gr" -> "r " [] n = "gs" -> "s " [] n = "di" -> "DI " [] n = "df" -> "DF "
Shows(ty, v) == IF ty = BOOL THEN IF v THEN "1" ELSE "0" ELSE v

----------------------------------------------------------------------------
(* Operators                                                                *)

IntOp(o, a, b) == CASE o = "+" -> IAdd(a, b) [] o = "-" -> ISub(a, b) [] o = "*" -> IMul(a, b)
                    [] o = "/" -> IDiv(a, b) [] o = "mod" -> IRem(a, b) [] o = "^" -> IPow(a, b)
                    [] o = "<<" -> IShl(a, b) [] o = ">>" -> IShr(a, b)
FloatOp(o, a, b) == CASE o = "+" -> FAdd(a, b) [] o = "-" -> FSub(a, b) [] o = "*" -> FMul(a, b)
                      [] o = "/" -> FDiv(a, b) [] o = "mod" -> FRem(a, b) [] o = "^" -> FPow(a, b)
IntCmp(o, a, b) == CASE o = "<" -> ILt(a, b) [] o = ">" -> ILt(b, a)
                     [] o = "<=" -> ~ILt(b, a) [] o = ">=" -> ~ILt(a, b)
FloatCmp(o, a, b) == CASE o = "<" -> FLt(a, b) [] o = ">" -> FLt(b, a)
                       [] o = "<=" -> FLe(a, b) [] o = ">=" -> FLe(b, a)
Same(ty, a, b) == IF ty = FLOAT THEN FEq(a, b) ELSE a = b
Compares == {"<", ">", "<=", ">="}

(* a reference is <<index in store, id>>; it is dead once its variable is gone *)
Alive(x, v) == v[1] <= Len(x.store) /\ x.store[v[1]].id = v[2]

----------------------------------------------------------------------------
(* Haz: operand order, laziness and the width of C's int                    *)

RECURSIVE HasCall(_), HasRead(_, _), CInt(_)
HasCall(e) == CASE e.o = "call" -> TRUE [] e.o \in {"const", "id"} -> FALSE
                [] e.o \in Unary -> HasCall(e.r) [] OTHER -> HasCall(e.l) \/ HasCall(e.r)
HasRead(S, e) == CASE e.o = "call" -> \E k \in DOMAIN e.args : HasRead(S, e.args[k])
                   [] e.o = "const" -> FALSE [] e.o = "id" -> ~S.syms[e.sym].const
                   [] e.o = "deref" -> TRUE
                   [] e.o \in Unary -> HasRead(S, e.r) [] OTHER -> HasRead(S, e.l) \/ HasRead(S, e.r)
OrderMatters(S, a, b) == \/ HasCall(a) /\ (HasCall(b) \/ HasRead(S, b))
                         \/ HasCall(b) /\ HasRead(S, a)
(* computed in C's int *)
CInt(e) == CASE e.o = "const" -> e.ty = INT /\ I32(e.v)
             [] e.o = "neg" -> e.ty = INT /\ CInt(e.r)
             [] e.o \in {"+", "-", "*", "/", "mod"} -> e.ty = INT /\ CInt(e.l) /\ CInt(e.r)
             [] e.o \in {"<<", ">>"} -> CInt(e.l)
             [] OTHER -> FALSE
Narrow(e, v) == CInt(e) /\ v \notin {"!", "?"} /\ ~I32(v)

----------------------------------------------------------------------------

RECURSIVE Eval(_, _), EvalArgs(_, _, _, _), Call(_, _, _, _), Run(_, _, _, _), Block(_, _), Loop(_, _)

EvalArgs(x, args, k, acc) ==
    IF k > Len(args) THEN XV(x, acc)
    ELSE LET r == Eval(x, args[k])
         IN IF r.x.st # "ok" THEN r ELSE EvalArgs(r.x, args, k + 1, Append(acc, r.v))

(* put a new variable on the store *)
Bind(x, sym, v) ==
    [x EXCEPT !.ids = @ + 1, !.store = Append(@, [id |-> x.ids + 1, v |-> v]),
              !.env = (sym :> Len(x.store) + 1) @@ @]
RECURSIVE BindAll(_, _, _, _)
BindAll(x, syms, vs, k) == IF k > Len(syms) THEN x ELSE BindAll(Bind(x, syms[k], vs[k]), syms, vs, k + 1)

(* tk(): what the environment answers, call after call *)
Answers == <<TRUE, TRUE, FALSE, TRUE, FALSE, TRUE, TRUE, FALSE, TRUE, FALSE, FALSE, TRUE, FALSE, TRUE, TRUE, FALSE,
             FALSE, TRUE, FALSE, TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, TRUE, FALSE, TRUE, TRUE, TRUE, TRUE, FALSE,
             FALSE, TRUE, FALSE, TRUE, TRUE, TRUE, FALSE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, FALSE,
             FALSE, TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, TRUE, FALSE, FALSE, TRUE, TRUE, FALSE, TRUE, FALSE, FALSE>>
Answer(x) == x.tick < 320 /\ Answers[(x.tick % 64) + 1]

Call(x, sym, vs, e) ==
    LET y == x.S.syms[sym]
    IN IF y.ext
       THEN IF y.name = "tk" /\ y.ps = <<>> /\ y.ty = BOOL
            THEN XV([x EXCEPT !.ev = Append(@, "T " \o Shows(BOOL, Answer(x))), !.tick = @ + 1], Answer(x))
            ELSE IF y.name = "v" /\ y.ps = <<>> /\ y.ty = VOID THEN XV([x EXCEPT !.ev = Append(@, "V")], "")
            ELSE IF y.name \notin DOMAIN ExtSig THEN XBad(x, "external")
            ELSE LET g == ExtSig[y.name]
                     deref == y.name \in {"di", "df"}
                     v == IF deref THEN x.store[vs[1][1]].v ELSE vs[1]
                 IN IF y.ps # <<g[1]>> \/ y.ty # g[2] THEN XBad(x, "external")
                    ELSE IF deref /\ ~Alive(x, vs[1]) THEN XBad(x, "dead reference")
                    ELSE XV([x EXCEPT !.ev = Append(@, Tag(y.name) \o Shows(g[1], v))], v)
       ELSE IF x.fuel = 0 \/ x.depth > 200 THEN XBad(x, "fuel")
       ELSE LET f == x.fns[sym]
                r == Run([BindAll(x, f.ps, vs, 1) EXCEPT !.fuel = @ - 1, !.depth = @ + 1], f.ch, 1, FALSE)
            IN IF r.st # "ok" THEN XV(r, "")
               ELSE XV([r EXCEPT !.env = x.env, !.store = SubSeq(@, 1, Len(x.store)), !.ctl = "next",
                                 !.depth = x.depth, !.rv = x.rv], r.rv)

Eval(x, e) ==
    CASE e.o = "const" -> XV(Hazard(x, e.ty = INT /\ e.v = "-9223372036854775808", "int min"), e.v)
      [] e.o = "id" -> XV(x, x.store[x.env[e.sym]].v)
      [] e.o = "ref" -> XV(x, LET p == x.env[e.r.sym] IN <<p, x.store[p].id>>)
      [] e.o = "deref" ->
           LET r == x.store[x.env[e.r.sym]].v
           IN IF Alive(x, r) THEN XV(x, x.store[r[1]].v) ELSE XBad(x, "dead reference")
      [] e.o = "call" ->
           LET a == EvalArgs(x, e.args, 1, <<>>)
               hz == \E j, k \in DOMAIN e.args : j < k /\ OrderMatters(x.S, e.args[j], e.args[k])
           IN IF a.x.st # "ok" THEN a ELSE Call(Hazard(a.x, hz, "order"), e.sym, a.v, e)
      [] e.o = "not" -> LET r == Eval(x, e.r) IN IF r.x.st # "ok" THEN r ELSE XV(r.x, ~r.v)
      [] e.o = "neg" ->
           LET r == Eval(x, e.r)
               v == IF e.ty = INT THEN ISub("0", r.v) ELSE FSub("8000000000000000", r.v)
           IN IF r.x.st # "ok" THEN r ELSE IF v = "!" THEN XBad(r.x, "overflow")
              ELSE XV(Hazard(r.x, Narrow(e, v), "int width"), v)
      [] OTHER ->
           LET l == Eval(Hazard(x, OrderMatters(x.S, e.l, e.r), "order"), e.l)
               r == Eval(l.x, e.r)
               ty == e.r.ty
               v == IF ty = INT THEN IntOp(e.o, l.v, r.v) ELSE FloatOp(e.o, l.v, r.v)
               b == CASE e.o = "and" -> l.v /\ r.v
                      [] e.o = "or" -> l.v \/ r.v
                      [] e.o = "xor" -> l.v # r.v
                      [] e.o = "is" -> Same(ty, l.v, r.v)
                      [] e.o = "isnt" -> ~Same(ty, l.v, r.v)
                      [] e.o \in Compares -> IF ty = INT THEN IntCmp(e.o, l.v, r.v) ELSE FloatCmp(e.o, l.v, r.v)
           IN IF l.x.st # "ok" THEN l ELSE IF r.x.st # "ok" THEN r
              ELSE IF e.o \in {"is", "isnt"} /\ IsRef(ty) /\ ~(Alive(x, l.v) /\ Alive(x, r.v)) THEN XBad(x, "dead reference")
              ELSE IF e.o \in {"and", "or"} THEN XV(Hazard(r.x, HasCall(e.r), "lazy"), b)
              ELSE IF e.ty = BOOL THEN XV(r.x, b)
              ELSE IF v \in {"!", "?"} THEN XBad(r.x, "arithmetic")
              ELSE XV(Hazard(Hazard(r.x, Narrow(e, v), "int width"),
                             e.o = ">>" /\ ILt(l.v, "0"), "shift"), v)

(* a block: its variables end with it *)
Block(x, ch) ==
    LET r == Run(x, ch, 1, FALSE)
    IN IF r.st # "ok" THEN r ELSE [r EXCEPT !.env = x.env, !.store = SubSeq(@, 1, Len(x.store))]

Loop(x, n) ==
    IF x.fuel = 0 \/ Len(x.ev) > 2500 THEN Unspec(x, "fuel")
    ELSE LET c == Eval([x EXCEPT !.fuel = @ - 1], n.e)
             b == Block(c.x, n.ch)
         IN IF c.x.st # "ok" \/ ~c.v THEN c.x
            ELSE IF b.st # "ok" THEN b
            ELSE CASE b.ctl = "break" -> [b EXCEPT !.ctl = "next"]
                   [] b.ctl = "return" -> b
                   [] OTHER -> Loop([b EXCEPT !.ctl = "next"], n)

(* <<state after one statement, whether an if before it was taken>> *)
Step(x, n, took) ==
    LET r == Eval(x, n.e)
    IN CASE n.t \in {"alias", "noop", "import"} -> <<x, FALSE>>
         [] n.t = "comment" -> <<x, took>>
         [] n.t = "func" -> <<[x EXCEPT !.fns = (n.sym :> n) @@ @], FALSE>>
         [] n.t = "def" -> <<IF r.x.st # "ok" THEN r.x ELSE Bind(r.x, n.sym, r.v), FALSE>>
         [] n.t = "assign" ->
              <<IF r.x.st # "ok" THEN r.x ELSE [r.x EXCEPT !.store[r.x.env[n.sym]].v = r.v], FALSE>>
         [] n.t = "expr" -> <<r.x, FALSE>>
         [] n.t = "return" ->
              IF n.e.o = "none" THEN <<[x EXCEPT !.ctl = "return", !.rv = ""], FALSE>>
              ELSE <<IF r.x.st # "ok" THEN r.x ELSE [r.x EXCEPT !.ctl = "return", !.rv = r.v], FALSE>>
         [] n.t \in {"break", "continue"} -> <<[x EXCEPT !.ctl = n.t], FALSE>>
         [] n.t = "unreachable" -> <<Unspec(x, "unreachable"), FALSE>>
         [] n.t \in {"if", "elif"} ->
              IF n.t = "elif" /\ took THEN <<x, TRUE>>
              ELSE IF r.x.st # "ok" THEN <<r.x, FALSE>>
              ELSE IF r.v THEN <<Block(r.x, n.ch), TRUE>> ELSE <<r.x, FALSE>>
         [] n.t = "else" -> IF took THEN <<x, TRUE>> ELSE <<Block(x, n.ch), TRUE>>
         [] n.t = "while" -> <<Loop(x, n), FALSE>>
         (* the names of a namespace live on after its block *)
         [] n.t = "namespace" -> <<Run(x, n.ch, 1, FALSE), FALSE>>

Run(x, ns, i, took) ==
    IF i > Len(ns) \/ x.st # "ok" \/ x.ctl # "next" THEN x
    ELSE LET s == Step(x, ns[i], took) IN Run(s[1], ns, i + 1, s[2])

XNext(x) ==
    IF x.i > Len(x.ns) \/ x.st # "ok" \/ x.ctl # "next" THEN [x EXCEPT !.done = TRUE]
    ELSE LET s == Step(x, x.ns[x.i], x.took) IN [s[1] EXCEPT !.i = x.i + 1, !.took = s[2]]

(* The same, but a statement without a meaning (probe = "c": or with a      *)
(* hazard) is left out: finds the statements a program can be made of.      *)
XProbe(x, probe) ==
    IF x.i > Len(x.ns) \/ x.ctl # "next" THEN [x EXCEPT !.done = TRUE]
    ELSE LET s == Step(x, x.ns[x.i], x.took)
         IN IF s[1].st # "ok" \/ (probe = "c" /\ s[1].haz # x.haz)
            THEN [x EXCEPT !.i = @ + 1, !.took = FALSE, !.open = Append(@, x.i)]
            ELSE [s[1] EXCEPT !.i = x.i + 1, !.took = s[2]]

ExitStatus(x) == IF x.ctl = "return" THEN ILow8(x.rv) ELSE 0
==============================================================================
