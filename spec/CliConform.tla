------------------------------ MODULE CliConform ------------------------------
(***************************************************************************)
(* Checks observed invocations of the real compiler against Cli.tla.        *)
(*                                                                          *)
(* obs: [rc, out: kind of what standard output shows, err: standard error,  *)
(*       fs: sequence of [p, k] afterwards; a kind is that of Cli.tla, and  *)
(*       what was there before and is the same has the kind it had]         *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

TracesFile == IOEnv.SKULL_TRACES
Traces == ReadInputs(TracesFile)

VARIABLES step
xvars == <<cvars, step>>

Obs == In.obs
ObsFs == {<<Obs.fs[n].p, Obs.fs[n].k>> : n \in DOMAIN Obs.fs}
Known == SelectSeq(err, LAMBDA e : e # "?" /\ e # "")
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + Total(Tail(s))
ErrOk == /\ \A n \in DOMAIN Known : Contains(Obs.err, Known[n])
         /\ IF \E n \in DOMAIN err : err[n] = "?" THEN Size(Obs.err) > Total(Known) ELSE Size(Obs.err) = Total(Known)
FsOk == LET free == {p \in DOMAIN fs : fs[p] = "?"}
        IN {<<p, fs[p]>> : p \in DOMAIN fs \ free} = {e \in ObsFs : e[1] \notin free}

Verdict == [id |-> In.id, steps |-> step, open |-> rc = Open, rc |-> Obs.rc = rc, out |-> Obs.out = out, err |-> ErrOk, fs |-> FsOk,
            want |-> [rc |-> rc, out |-> out, err |-> StrCat(err), fs |-> ToString(fs)]]

Report_ == phase = "end" /\ phase' = "reported" /\ UNCHANGED <<i, k, o, fs, out, err, rc, obj, ret>>
           /\ Emit(ToJson(Verdict))
XInit_ == Init /\ step = 0
XNext_ == (Next \/ Report_) /\ step' = step + 1
View == <<i, step>>
==============================================================================
