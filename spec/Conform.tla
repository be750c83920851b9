------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Checks observations of the real compiler against Skull.tla: every input  *)
(* is one initial state; when its behaviour has reached its end, the        *)
(* verdict is written out.                                                  *)
(*                                                                          *)
(* obs: [rc, err: text on standard error,                                   *)
(*       runs: sequence of [tag, c: from the C backend, ev, rc]]            *)
(***************************************************************************)
EXTENDS Skull, Json, IOUtils

TracesFile == IOEnv.SKULL_TRACES
Traces == ReadInputs(TracesFile)
FuelC == 8000

VARIABLES step
cvars == <<vars, step>>

Obs == In.obs

(* what is rejected is rejected by a diagnostic, not by an accident further on *)
Undiagnosed == ~Accepted /\ In.bad >= 0
    /\ \/ Contains(Obs.err, "error while verifying LLVM")
       \/ HasError /\ ~Contains(Obs.err, "Compilation error")

CompileVerdict ==
    IF Skipped THEN "skip"
    ELSE IF Obs.rc # (IF Accepted THEN 0 ELSE 1) \/ Undiagnosed THEN "rc"
    ELSE IF In.bad >= 0 /\ Obs.err # Output THEN "err"
    ELSE "ok"

RunVerdict(r) ==
    IF ~Ran THEN "skip"
    ELSE IF x.st # "ok" THEN "skip"
    ELSE IF r.c /\ x.haz # {} THEN "skip"
    ELSE IF r.ev # x.ev THEN "ev"
    ELSE IF r.rc # ExitStatus(x) THEN "exit"
    ELSE "ok"

Codes_(S) == [k \in DOMAIN S |-> S[k].code]

Verdict ==
    LET rs == [k \in DOMAIN Obs.runs |-> [tag |-> Obs.runs[k].tag, v |-> RunVerdict(Obs.runs[k])]]
        c == CompileVerdict
    IN [id |-> In.id, steps |-> step, compile |-> c, runs |-> rs, accepted |-> Accepted,
        codes |-> Codes_(ds),
        want |-> IF c \in {"ok", "skip"} THEN "" ELSE Output,
        st |-> IF Ran THEN x.st ELSE "", why |-> IF Ran THEN x.why ELSE "",
        haz |-> IF Ran THEN x.haz ELSE {},
        open |-> IF Ran THEN x.open ELSE <<>>, len |-> IF Ran THEN Len(x.ns) ELSE 0,
        nev |-> IF Ran THEN Len(x.ev) ELSE 0,
        ev |-> IF Ran /\ \E k \in DOMAIN rs : rs[k].v \in {"ev", "exit"} THEN x.ev ELSE <<>>,
        exit |-> IF Ran /\ x.st = "ok" THEN ExitStatus(x) ELSE 0]

Report_ == phase = "end" /\ phase' = "reported" /\ UNCHANGED <<i, lx, ps, cs, x, ds>>
           /\ Emit(ToJson(Verdict))

CInit == Init /\ step = 0
CNext == (Next \/ Report_) /\ step' = step + 1
CSpec == CInit /\ [][CNext]_cvars

(* the state is determined by the input and the number of steps *)
View == <<i, step>>
==============================================================================
