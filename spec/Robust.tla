-------------------------------- MODULE Robust --------------------------------
(***************************************************************************)
(* Whatever the bytes of the source and the options, the compiler comes to  *)
(* an end by itself, with success or with an explained failure, and all     *)
(* ways of invoking it agree on whether the source is a program.            *)
(*                                                                          *)
(* obs.forms: sequence of [name, werror, rc, err: size of standard error,   *)
(*            shown: an error was shown, harm: what a memory checker said]  *)
(* large: the text is too long to be followed; only that the invocations    *)
(*        end properly and agree is asked for                               *)
(***************************************************************************)
EXTENDS Skull, Json, IOUtils

TracesFile == IOEnv.SKULL_TRACES
Traces == ReadInputs(TracesFile)
FuelC == 100

VARIABLES step
rvars == <<vars, step>>

F == In.obs.forms

(* what every invocation has in common *)
Ends(f) == f.rc \in {0, 1} /\ f.harm = ""
Explains(f) == f.rc = 1 => f.err > 0
Silent(f) == f.rc = 0 => ~f.shown
(* --werror may turn success into failure *)
Agree(f, g) == IF f.werror = g.werror THEN f.rc = g.rc ELSE IF f.werror THEN f.rc >= g.rc ELSE g.rc >= f.rc

Judged == ~In.large /\ ~Skipped
AsSpecified(f) == (Judged /\ ~f.werror) => f.rc = (IF Accepted THEN 0 ELSE 1)

Verdict ==
    LET bad == {n \in DOMAIN F : ~(Ends(F[n]) /\ Explains(F[n]) /\ Silent(F[n]) /\ AsSpecified(F[n]))}
        split == {n \in DOMAIN F : ~Agree(F[n], F[1])}
    IN [id |-> In.id, open |-> FALSE, judged |-> Judged, ends |-> \A n \in DOMAIN F : Ends(F[n]),
        fine |-> bad = {} /\ split = {}, bad |-> {F[n].name : n \in bad \cup split}, accepted |-> IF In.large THEN FALSE ELSE Accepted]

Report_ == (phase = "end" \/ In.large) /\ phase # "reported" /\ phase' = "reported" /\ UNCHANGED <<i, lx, ps, cs, x, ds>>
           /\ Emit(ToJson(Verdict))
RInit == Init /\ step = 0
RNext == ((~In.large /\ Next) \/ Report_) /\ step' = step + 1
View == <<i, step>>
==============================================================================
