-------------------------------- MODULE Skull --------------------------------
(***************************************************************************)
(* The compiler as a whole: a source text goes through the phases           *)
(*                                                                          *)
(*    decode -> lex -> parse -> check -> run -> end                         *)
(*                                                                          *)
(* one line, statement or declaration at a time.  A phase that reports an  *)
(* error goes to "end" at once; "run" is the execution of the program the   *)
(* compiler has accepted.                                                   *)
(***************************************************************************)
EXTENDS Exec

CONSTANTS Inputs,  \* sequence of [src, bad, file, colour, werror, quiet, mods, run, probe]
          Fuel     \* how many loop iterations and calls are followed

VARIABLES i,       \* which input
          phase, lx, ps, cs, x,
          ds       \* diagnostics in the order they are shown

vars == <<i, phase, lx, ps, cs, x, ds>>

In == Inputs[i]
Ctx == [T |-> lx.toks, src |-> In.src, werror |-> In.werror, quiet |-> In.quiet, mods |-> In.mods]
BomWarning == IF lx.bom THEN <<Diag("W", "Bom", 0, 0, <<>>)>> ELSE <<>>

Init ==
    /\ i \in DOMAIN Inputs
    /\ phase = "decode" /\ lx = <<>> /\ ps = <<>> /\ cs = <<>> /\ x = <<>> /\ ds = <<>>

(* bad: 0, or one more than the number of characters before the first bytes that are not UTF-8, *)
(* or -1 if there are NUL bytes                                                                 *)
Decode ==
    /\ phase = "decode"
    /\ IF In.bad # 0
       THEN /\ phase' = "end" /\ UNCHANGED <<lx, ps, cs, x>>
            /\ ds' = <<Diag("E", "IllegalSeqAt", 0, 0, <<IF In.bad < 0 THEN "" ELSE Num(In.bad - 1)>>)>>
       ELSE IF In.src = <<>>
       THEN (* nothing to compile: only a warning, and nothing is made *)
            /\ phase' = "end" /\ UNCHANGED <<lx, ps, cs, x>>
            /\ ds' = <<Diag("W", "FileEmpty", 0, 0, <<>>)>>
       ELSE LET l == LexInit(In.src)
            IN /\ lx' = l
               /\ ds' = IF l.bom THEN <<Diag("W", "Bom", 0, 0, <<>>)>> ELSE <<>>
               /\ phase' = IF l.bom /\ In.werror THEN "end" ELSE "lex"
               /\ UNCHANGED <<ps, cs, x>>
    /\ UNCHANGED i

LexStep ==
    /\ phase = "lex"
    /\ LET l == LexLine(In.src, lx)
       IN /\ lx' = l
          /\ IF l.err # <<>>
             THEN /\ phase' = "end" /\ UNCHANGED ps
                  /\ ds' = Append(ds, Diag("E", l.err[1], l.err[2], l.err[3], <<>>))
             ELSE IF l.done
             THEN phase' = "parse" /\ ps' = ParseInit /\ UNCHANGED ds
             ELSE UNCHANGED <<phase, ps, ds>>
    /\ UNCHANGED <<i, cs, x>>

ParseStep ==
    /\ phase = "parse"
    /\ LET p == ParseNext(lx.toks, ps)
       IN /\ ps' = p
          /\ IF ~p.done THEN UNCHANGED <<phase, ds, cs>>
             ELSE /\ ds' = ds \o p.ds
                  /\ phase' = IF p.err THEN "end" ELSE "check"
                  /\ cs' = ChkInit
    /\ UNCHANGED <<i, lx, x>>

CheckStep ==
    /\ phase = "check"
    /\ LET c == ChkNext(Ctx, Tree(ps), cs)
       IN /\ cs' = c
          /\ IF ~c.done THEN UNCHANGED <<phase, ds, x>>
             ELSE /\ ds' = ds \o c.s.ds
                  /\ IF c.s.bad \/ c.s.skip \/ ~In.run THEN phase' = "end" /\ UNCHANGED x
                     ELSE phase' = "run" /\ x' = XInit(c.s, c.ns, Fuel)
    /\ UNCHANGED <<i, lx, ps>>

RunStep ==
    /\ phase = "run"
    /\ x' = IF In.probe = "" THEN XNext(x) ELSE XProbe(x, In.probe)
    /\ phase' = IF x'.done THEN "end" ELSE "run"
    /\ UNCHANGED <<i, lx, ps, cs, ds>>

Next == Decode \/ LexStep \/ ParseStep \/ CheckStep \/ RunStep

----------------------------------------------------------------------------
(* What the compiler says in the end                                        *)

HasError == \E k \in DOMAIN ds : ds[k].sev = "E"
HasWarning == \E k \in DOMAIN ds : ds[k].sev = "W"
Checked == cs # <<>> /\ cs.done
Accepted == \/ Checked /\ ~cs.s.bad
            \/ In.src = <<>> /\ In.bad = 0 /\ ~In.werror
Skipped == Checked /\ cs.s.skip
Ran == x # <<>>
Output == Report(In.file, In.colour, In.quiet, ds)

----------------------------------------------------------------------------
(* Properties of the specification itself                                   *)

(* every input ends in acceptance or in a diagnostic that says why not *)
NoSilentFailure == phase = "end" => (Accepted <=> ~(HasError \/ (In.werror /\ HasWarning)))
(* at most one statement is to blame: an error is the last diagnostic but for those that follow from it *)
(* (short texts only: the cost grows with the square of the length) *)
TokensInOrder == (phase = "parse" /\ ps.p = 1 /\ Len(In.src) <= 120) =>
    /\ TokensOrdered(In.src, lx.toks)
    /\ NothingLost(In.src, lx.toks, Len(In.src))
    /\ \A k \in DOMAIN lx.toks : LocationRight(In.src, lx.toks[k])
(* diagnostics point into the text *)
LocationsExist == phase = "end" =>
    \A k \in DOMAIN ds : ds[k].l # 0 =>
        /\ ds[k].l <= 1 + Cardinality({p \in DOMAIN In.src : In.src[p] = NL})
        /\ ds[k].c >= 1
(* a constant never changes, and a variable only holds values of its type *)
TypeOk(ty, v) == CASE IsRef(ty) -> v \in Seq(Nat) /\ Len(v) = 2
                   [] ty = BOOL -> v \in BOOLEAN
                   [] OTHER -> v \in STRING /\ v \notin {"!", "?"}
StoreTyped == (phase = "run") =>
    \A y \in DOMAIN x.env : x.env[y] <= Len(x.store) => TypeOk(x.S.syms[y].ty, x.store[x.env[y]].v)
ConstStays == [][(phase = "run" /\ x' # x) =>
    \A y \in DOMAIN x.env \cap DOMAIN x'.env :
        (x.S.syms[y].const /\ x.env[y] <= Len(x.store) /\ x'.env[y] <= Len(x'.store)
          /\ x.store[x.env[y]].id = x'.store[x'.env[y]].id)
            => x.store[x.env[y]].v = x'.store[x'.env[y]].v]_vars
(* at the top level every name that was declared still denotes the same thing *)
NamesStable == [][(phase = "check" /\ phase' = "check") =>
    \A n \in DOMAIN cs.s.sc[1] : cs'.s.sc[1][n] = cs.s.sc[1][n]]_vars
(* events only ever get added, and the phases only move forward *)
EventsGrow == [][(phase = "run") => /\ Len(x.ev) <= Len(x'.ev) /\ SubSeq(x'.ev, 1, Len(x.ev)) = x.ev]_vars
PhaseNo(p) == CASE p = "decode" -> 0 [] p = "lex" -> 1 [] p = "parse" -> 2 [] p = "check" -> 3
                [] p = "run" -> 4 [] p = "end" -> 5
PhasesForward == [][PhaseNo(phase) <= PhaseNo(phase')]_vars
(* nothing runs that was not accepted *)
OnlyAcceptedRun == phase = "run" => Accepted /\ ~HasError
==============================================================================
