-------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* A module used from C: its code is run once by calling the function with  *)
(* the name of the module, after that exported functions may be called and  *)
(* exported variables read, in any order.  What is not exported cannot be   *)
(* reached from outside.                                                    *)
(*                                                                          *)
(* cells: variables of the C program, [ty, v]                               *)
(* uses: sequence of [f, args, refs, get]; f is called with args, where     *)
(*       refs[k] # 0 stands for a reference to that cell, which is shown    *)
(*       afterwards; or, if get, the variable f is read                     *)
(* obs:  [rc, err, syms: names the object file defines for others, ev]      *)
(***************************************************************************)
EXTENDS Skull, Json, IOUtils

TracesFile == IOEnv.SKULL_TRACES
Traces == ReadInputs(TracesFile)
FuelC == 8000

VARIABLES n, step
evars == <<vars, n, step>>

Obs == In.obs

(* symbols of the outermost scope by name *)
Top == cs.s.sc[1]
Exported == {In.module \o "." \o m : m \in {q \in DOMAIN Top : cs.s.syms[Top[q]].exp}}
Symbols == {"." \o In.module} \cup Exported

(* the module has run from its first statement to its last *)
Whole == Ran /\ x.st = "ok" /\ x.i > Len(x.ns)

Shown_(ty, v) == CASE ty = VOID -> "V" [] ty = INT -> "I " \o v [] ty = FLOAT -> "F " \o v [] ty = BOOL -> "B " \o Shows(BOOL, v)
                   [] ty = RUNE -> "R " \o v [] ty = STR -> "S " \o v

Begin ==
    /\ phase = "end" /\ Whole /\ n = 0 /\ n' = 1 /\ phase' = "uses"
    /\ x' = [x EXCEPT !.ev = Append(@, "X " \o Num(ExitStatus(x))), !.ctl = "next", !.ids = @ + Len(In.cells),
                      !.store = @ \o [k \in DOMAIN In.cells |-> [id |-> x.ids + k, v |-> In.cells[k].v]]]
    /\ UNCHANGED <<i, lx, ps, cs, ds>>

CellTy(t) == CASE t = "Int" -> INT [] t = "Float" -> FLOAT [] t = "Bool" -> BOOL [] t = "Rune" -> RUNE [] t = "Str" -> STR
(* the k-th cell: the cells are the last of the store between uses *)
Cell(k) == Len(x.store) - Len(In.cells) + k
RECURSIVE ShowCells(_, _, _)
ShowCells(y, u, k) ==
    IF k > Len(u.refs) THEN <<>>
    ELSE (IF u.refs[k] = 0 THEN <<>> ELSE <<Shown_(CellTy(In.cells[u.refs[k]].ty), y.store[Cell(u.refs[k])].v)>>) \o ShowCells(y, u, k + 1)
(* through an exported reference *)
Read(sym) == LET v == x.store[x.env[sym]].v
                 ty == cs.s.syms[sym].ty
             IN IF IsRef(ty) THEN [ok |-> Alive(x, v), ty |-> Inner(ty), v |-> IF Alive(x, v) THEN x.store[v[1]].v ELSE ""] ELSE [ok |-> TRUE, ty |-> ty, v |-> v]

Cut == 1000000
(* a use without a meaning is the last that is followed *)
Use ==
    /\ phase = "uses" /\ n <= Len(In.uses) /\ x.st = "ok"
    /\ LET u == In.uses[n]
           sym == Top[u.f]
           y == cs.s.syms[sym]
           vs == [k \in DOMAIN u.args |-> IF u.refs[k] = 0 THEN u.args[k] ELSE <<Cell(u.refs[k]), x.store[Cell(u.refs[k])].id>>]
           r == Call(x, sym, vs, [o |-> "call"])
           g == Read(sym)
           ok == IF u.get THEN g.ok ELSE r.x.st = "ok"
       IN /\ x' = IF ~ok THEN x
                  ELSE IF u.get THEN [x EXCEPT !.ev = Append(@, Shown_(g.ty, g.v))]
                  ELSE [r.x EXCEPT !.ev = Append(@, Shown_(y.ty, r.v)) \o ShowCells(r.x, u, 1)]
          /\ n' = IF ~ok THEN Cut ELSE n + 1
    /\ UNCHANGED <<i, phase, lx, ps, cs, ds>>

Finished == \/ phase = "end" /\ ~Whole
            \/ phase = "uses" /\ (n > Len(In.uses) \/ x.st # "ok")

Judged == phase \in {"uses"} /\ x.st = "ok"
Verdict ==
    [id |-> In.id, accepted |-> Accepted, open |-> ~Judged,
     compile |-> IF Skipped THEN "skip" ELSE IF Obs.rc # (IF Accepted THEN 0 ELSE 1) THEN "rc" ELSE "ok",
     syms |-> IF Accepted /\ Checked /\ ~Skipped THEN {Obs.syms[k] : k \in DOMAIN Obs.syms} = Symbols ELSE TRUE,
     ev |-> IF ~Judged THEN TRUE ELSE IF n = Cut THEN Len(Obs.ev) >= Len(x.ev) /\ SubSeq(Obs.ev, 1, Len(x.ev)) = x.ev ELSE Obs.ev = x.ev,
     want |-> [ev |-> IF Ran THEN x.ev ELSE <<>>, syms |-> IF Checked THEN Symbols ELSE {}, why |-> IF Ran THEN x.why ELSE ""],
     uses |-> IF Judged /\ n # Cut THEN Len(In.uses) ELSE 0]

Report_ == Finished /\ phase' = "reported" /\ UNCHANGED <<i, lx, ps, cs, x, ds, n>> /\ Emit(ToJson(Verdict))

EInit == Init /\ n = 0 /\ step = 0
ENext == ((Next /\ n' = n) \/ Begin \/ Use \/ Report_) /\ step' = step + 1
View == <<i, step>>

(* what the module keeps is not lost between uses *)
StaysTyped == phase = "uses" => \A y \in DOMAIN x.env : x.env[y] <= Len(x.store) => TypeOk(x.S.syms[y].ty, x.store[x.env[y]].v)
StackEmpty == [][(phase = "uses" /\ phase' = "uses" /\ x'.st = "ok") => Len(x'.store) = Len(x.store) /\ x'.depth = x.depth]_evars
==============================================================================
