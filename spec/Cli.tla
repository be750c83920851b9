--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: what is asked for, what is refused, and what is found *)
(* in the file system afterwards.                                           *)
(*                                                                          *)
(*    args -> options -> source -> compile -> emit -> link -> end           *)
(*                                                                          *)
(* The world an invocation meets is part of the input: the files there are *)
(* (fs), the environment, and what the linker does when it is called.  Any  *)
(* phase may fail; it then goes to "end" with a message, an exit status     *)
(* other than 0, and no other trace.                                        *)
(***************************************************************************)
EXTENDS Exec

CONSTANT Inputs  \* sequence of [args, env, fs, srcs, linker]
                 \*   args   strings after the name of the program
                 \*   env    value of COLOR: <<>> unset, <<"1">>, ...
                 \*   fs     sequence of [p: path, k: kind]; kinds: "src", "dir", "file", "full";
                 \*          what is made is "ir", "asm", "c", "obj" or "program" with the
                 \*          exit status of the program it stands for ("obj 7")
                 \*   srcs   sequence of [p: path, src: code points, bad]
                 \*   linker "ok", "none" (not found), "fail", "kill", "killsh", "part" (fails in different ways)

VARIABLES i, phase,
          k,       \* next argument
          o,       \* options so far
          fs,      \* path |-> kind
          out,     \* what standard output shows: "", "usage", "version", "ir", "asm", "c"
          err,     \* standard error: sequence of texts; <<"?">> stands for some message
          rc,      \* exit status: 0 or 1
          obj,     \* the object file that is to be linked
          ret      \* exit status of the program

cvars == <<i, phase, k, o, fs, out, err, rc, obj, ret>>

In == Inputs[i]
Arg == In.args[k]
More == k <= Len(In.args)

Flags == {"-c", "-S", "-E", "-g", "-q", "-O1", "-O2", "-O3", "--c-backend", "--werror", "--llvm-no-verify", "--color"}
O0 == [set |-> {}, file |-> <<>>, out |-> <<>>, rest |-> <<>>]
Asked(f) == f \in o.set

----------------------------------------------------------------------------
(* Paths                                                                    *)

Dot == 46
Slash == 47
Dash == 45
LastOf(s, c) == IF \E n \in DOMAIN s : s[n] = c THEN CHOOSE n \in DOMAIN s : s[n] = c /\ \A m \in n + 1 .. Len(s) : s[m] # c ELSE 0
DirPart(p) == LET s == Codes(p) IN Slice(s, 1, LastOf(s, Slash))
BasePart(p) == LET s == Codes(p) IN Slice(s, LastOf(s, Slash) + 1, Len(s))
EndsIn(p, e) == LET s == Codes(p) t == Codes(e) IN Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
(* files beside the source whose name starts with a dot *)
Hidden(p, ext) == StrCat(<<DirPart(p), ".", BasePart(p), ".", ext>>)
Program(p) == LET s == Codes(p) IN Slice(s, 1, LastOf(s, Dot) - 1)
(* the same file has one name *)
Norm(p) == LET s == Codes(p) IN IF Len(s) >= 2 /\ s[1] = Dot /\ s[2] = Slash THEN Slice(s, 3, Len(s)) ELSE p
ParentThere(p) == LET d == DirPart(Norm(p))
                      s == Codes(d)
                  IN d = "" \/ (Slice(s, 1, Len(s) - 1) \in DOMAIN fs /\ fs[Slice(s, 1, Len(s) - 1)] = "dir")
Kind_(p) == IF Norm(p) \in DOMAIN fs THEN fs[Norm(p)] ELSE "none"
(* a file that can be made or replaced *)
CanWrite(p) == p # "" /\ ParentThere(p) /\ Kind_(p) \notin {"dir", "full"}
With(p, kind) == [q \in DOMAIN fs \cup {Norm(p)} |-> IF q = Norm(p) THEN kind ELSE fs[q]]
Without(p) == [q \in DOMAIN fs \ {p} |-> fs[q]]

----------------------------------------------------------------------------
Init ==
    /\ i \in DOMAIN Inputs
    /\ phase = "args" /\ k = 1 /\ o = O0
    /\ fs = [p \in {Inputs[i].fs[n].p : n \in DOMAIN Inputs[i].fs} |->
                (CHOOSE e \in {Inputs[i].fs[n] : n \in DOMAIN Inputs[i].fs} : e.p = p).k]
    /\ out = "" /\ err = <<>> /\ rc = 0 /\ obj = "" /\ ret = 0

Fail(msg) == phase' = "end" /\ rc' = 1 /\ err' = Append(err, msg) /\ UNCHANGED <<i, k, o, fs, out, obj, ret>>
Refuse(msg) == Fail(StrCat(<<"skull: ", msg, "\n">>))
Show(what) == phase' = "end" /\ out' = what /\ UNCHANGED <<i, k, o, fs, err, rc, obj, ret>>
Take(o2, n) == o' = o2 /\ k' = k + n /\ UNCHANGED <<i, phase, fs, out, err, rc, obj, ret>>

(* called without anything: the same as asking for help *)
NoArgs == phase = "args" /\ In.args = <<>> /\ Show("usage")

Set(f) == IF f \in o.set THEN Refuse(f \o " cannot be used more then once") ELSE Take([o EXCEPT !.set = @ \cup {f}], 1)

(* one argument *)
OneArg ==
    /\ phase = "args" /\ More
    /\ LET a == Arg
           s == Codes(a)
           c == IF Len(s) >= 2 THEN s[2] ELSE 0
           short == <<Dash, c>>
       IN IF s = <<>> \/ s[1] # Dash THEN Take([o EXCEPT !.file = <<a>>], 1)
          ELSE IF c = 79 (* -O *)
          THEN IF Len(s) >= 3 /\ s[3] \in {49, 50, 51} THEN Set(Slice(s, 1, 3))
               ELSE Refuse(StrCat(<<"unrecognized optimization level \"", Slice(s, 3, Len(s)), "\"">>))
          ELSE IF c = Dash
          THEN IF Len(s) = 2
               THEN IF k = Len(In.args) THEN Refuse("expected arguments after --")
                    ELSE Take([o EXCEPT !.rest = SubSeq(In.args, k + 1, Len(In.args))], Len(In.args) - k + 1)
               ELSE CASE a = "--version" -> Show("version")
                      [] a = "--help" -> Show("usage")
                      [] a = "--color" /\ In.env # <<>> -> Refuse("--color overrides COLOR environment variable")
                      [] a \in {"--c-backend", "--werror", "--llvm-no-verify", "--color"} -> Set(a)
                      [] OTHER -> Refuse(StrCat(<<"unknown option \"", a, "\"">>))
          ELSE IF Len(s) > 2 THEN Refuse("short option must be exactly one character")
          ELSE CASE a = "-h" -> Show("usage")
                 [] a = "-v" -> Show("version")
                 [] a \in {"-c", "-S", "-E", "-g", "-q"} -> Set(a)
                 [] a = "-o" -> IF o.out # <<>> THEN Refuse("-o cannot be used more then once")
                                ELSE IF k = Len(In.args) THEN Refuse("expected filename after -o")
                                ELSE Take([o EXCEPT !.out = <<In.args[k + 1]>>], 2)
                 [] OTHER -> Refuse(StrCat(<<"unknown option \"", a, "\"">>))

(* options that do not go together; of several faults any may be named *)
Conflicts == SelectSeq(<<
    IF Cardinality(o.set \cap {"-O1", "-O2", "-O3"}) > 1 THEN "cannot specify multiple optimization levels" ELSE "",
    IF Asked("--c-backend") /\ Asked("--llvm-no-verify") THEN "cannot specify llvm-specific flags when using C backend" ELSE "",
    IF Asked("-q") /\ Asked("--werror") THEN "warnings aren't suppressed with --werror, -q is ignored" ELSE "",
    IF Asked("-S") /\ Asked("--c-backend") THEN "cannot output assembly (-S) using C backend" ELSE "",
    IF Cardinality(o.set \cap {"-S", "-E", "-c"}) > 1 THEN "-S, -E, and -c cannot be used together" ELSE "",
    IF o.file = <<>> THEN "expected filename"
    ELSE IF ~EndsIn(o.file[1], ".sk") THEN "missing required \".sk\" extension, exiting"
    ELSE IF BasePart(o.file[1]) = ".sk" THEN "\".sk\" is not a valid name, exiting" ELSE "">>, LAMBDA m : m # "")
Options ==
    /\ phase = "args" /\ ~More /\ In.args # <<>>
    /\ IF Conflicts = <<>> THEN phase' = "source" /\ UNCHANGED <<i, k, o, fs, out, err, rc, obj, ret>>
       ELSE IF Len(Conflicts) = 1 THEN Refuse(Conflicts[1])
       ELSE Fail("?")

File == o.file[1]

Source ==
    /\ phase = "source"
    /\ IF Kind_(File) = "none" THEN Refuse(StrCat(<<"\"", File, "\" was not found, exiting">>))
       ELSE IF Kind_(File) = "dir" THEN Refuse(StrCat(<<"\"", File, "\" is a directory not a file">>))
       ELSE IF Kind_(File) # "src" THEN Fail("?")
       ELSE phase' = "compile" /\ UNCHANGED <<i, k, o, fs, out, err, rc, obj, ret>>

(* The source goes through the phases of Skull.tla, here at one go *)
RECURSIVE ChkEnd(_, _, _), RunEnd(_)
RunEnd(x) == IF x.done THEN x ELSE RunEnd(XNext(x))
ChkEnd(C, tree, cs) == IF cs.done THEN cs ELSE ChkEnd(C, tree, ChkNext(C, tree, cs))
Text_(e) ==
    LET l == LexAll(e.src)
        p == ParseAll(l.toks)
        C == [T |-> l.toks, src |-> e.src, werror |-> Asked("--werror"), quiet |-> Asked("-q"), mods |-> <<>>]
        c == ChkEnd(C, Tree(p), ChkInit)
        No(ds) == [ok |-> FALSE, ds |-> ds, nothing |-> FALSE, ret |-> 0]
    IN IF e.bad # 0 THEN No(<<Diag("E", "IllegalSeqAt", 0, 0, <<Num(e.bad - 1)>>)>>)
       ELSE IF e.src = <<>> THEN [ok |-> ~Asked("--werror"), ds |-> <<Diag("W", "FileEmpty", 0, 0, <<>>)>>, nothing |-> TRUE, ret |-> 0]
       ELSE IF l.err # <<>> THEN No(<<Diag("E", l.err[1], l.err[2], l.err[3], <<>>)>>)
       ELSE IF p.err THEN No(p.ds)
       ELSE IF c.s.bad THEN No(p.ds \o c.s.ds)
       ELSE [ok |-> TRUE, ds |-> p.ds \o c.s.ds, nothing |-> FALSE, ret |-> ExitStatus(RunEnd(XInit(c.s, c.ns, 100)))]
Colour == Asked("--color") \/ (In.env # <<>> /\ In.env[1] # "" /\ Codes(In.env[1])[1] = 49)

Compile ==
    /\ phase = "compile"
    /\ LET e == In.srcs[CHOOSE n \in DOMAIN In.srcs : In.srcs[n].p = Norm(File)]
           r == Text_(e)
       IN /\ err' = Append(err, Report(File, Colour, Asked("-q"), r.ds))
          /\ rc' = IF r.ok THEN 0 ELSE 1
          /\ ret' = r.ret
          /\ phase' = IF r.ok /\ ~r.nothing THEN "emit" ELSE "end"
    /\ UNCHANGED <<i, k, o, fs, out, obj>>

----------------------------------------------------------------------------
(* What is made, and where                                                  *)

C == Asked("--c-backend")
Text__ == IF C THEN "c" ELSE IF Asked("-E") THEN "ir" ELSE IF Asked("-S") THEN "asm" ELSE ""
Stands(kind) == StrCat(<<kind, " ", Num(ret)>>)
Kind__ == IF Text__ # "" THEN Text__ ELSE IF Asked("-c") THEN "obj" ELSE "program"
(* "-" is standard output *)
Target == IF o.out # <<>> THEN o.out[1]
          ELSE IF Asked("-E") THEN "-"
          ELSE CASE Kind__ = "c" -> Hidden(File, "c") [] Kind__ = "asm" -> Hidden(File, "s")
                 [] Kind__ = "obj" -> Hidden(File, "o") [] OTHER -> Program(File)

(* text, or an object file to keep *)
Emit_ ==
    /\ phase = "emit" /\ Kind__ # "program"
    /\ IF Target = "-"
       THEN IF Kind__ = "obj" THEN Refuse("cannot print binary file to stdout")
            ELSE phase' = "end" /\ out' = Stands(Kind__) /\ UNCHANGED <<i, k, o, fs, err, rc, obj, ret>>
       ELSE IF Kind_(Target) = "full" THEN (* the disk is full: what else was to be said may be lost *)
            phase' = "end" /\ rc' = 1 /\ err' = <<"?">> /\ UNCHANGED <<i, k, o, fs, out, obj, ret>>
       ELSE IF CanWrite(Target) THEN phase' = "end" /\ fs' = With(Target, Stands(Kind__)) /\ UNCHANGED <<i, k, o, out, err, rc, obj, ret>>
       ELSE Fail("?")

(* a program: first an object file, which does not outlive the linking *)
EmitObj ==
    /\ phase = "emit" /\ Kind__ = "program"
    /\ LET h == Norm(Hidden(File, "o"))
       IN IF Target = "-" THEN Refuse("cannot print binary file to stdout")
          ELSE IF ~CanWrite(h) THEN Fail("?")
          ELSE phase' = "link" /\ fs' = With(h, Stands("obj")) /\ obj' = h /\ UNCHANGED <<i, k, o, out, err, rc, ret>>

(* (a name that starts with a dash is left to the linker's mercy) *)
(* -o among the arguments for the linker comes last and wins *)
Goes == IF \E n \in 1 .. Len(o.rest) - 1 : o.rest[n] = "-o"
        THEN o.rest[1 + CHOOSE n \in 1 .. Len(o.rest) - 1 : o.rest[n] = "-o" /\ \A m \in n + 1 .. Len(o.rest) - 1 : o.rest[m] # "-o"]
        ELSE Target
(* other arguments are the linker's business; only what these do is known here *)
Harmless == \A n \in DOMAIN o.rest : o.rest[n] \in {"", "sub/s p.o", "q'$(x).o", "x y.o", "z'$.o", "-lm", "-g", "-O1", "-O2", "-O3", "missing.o", "ext.o"} \/ (o.rest[n] = "-o" /\ n < Len(o.rest)) \/ (n > 1 /\ o.rest[n - 1] = "-o" /\ o.rest[n] \in {"other"})
Open == 255 \* exit status that is not specified
Inputs_ == {o.rest[n] : n \in {m \in DOMAIN o.rest : (o.rest[m] = "" \/ Codes(o.rest[m])[1] # Dash) /\ (m = 1 \/ o.rest[m - 1] # "-o")}}

Link ==
    /\ phase = "link" /\ phase' = "end" /\ obj' = ""
    /\ IF Kind_(Target) = "dir"
       THEN /\ fs' = Without(obj) /\ rc' = 1
            /\ err' = Append(err, StrCat(<<"skull: \"", Target, "\" is a directory not a file\n">>))
       ELSE IF ~Harmless \/ (Goes # "" /\ Codes(Goes)[1] = Dash) THEN rc' = Open /\ UNCHANGED <<fs, err>>
       ELSE IF In.linker = "ok" /\ CanWrite(Goes) /\ \A f \in Inputs_ : f \in DOMAIN fs
       THEN fs' = [q \in (DOMAIN fs \ {obj}) \cup {Norm(Goes)} |-> IF q = Norm(Goes) THEN Stands("program") ELSE fs[q]] /\ UNCHANGED <<err, rc>>
       ELSE (* the linker answers for what it was to make; nothing else changes *)
            /\ fs' = [q \in (DOMAIN fs \ {obj}) \cup {Norm(Goes)} |-> IF q = Norm(Goes) /\ Kind_(q) # "dir" THEN "?" ELSE fs[q]]
            /\ rc' = 1 /\ err' = Append(err, "?")
    /\ UNCHANGED <<i, k, o, out, ret>>

Next == NoArgs \/ OneArg \/ Options \/ Source \/ Compile \/ Emit_ \/ EmitObj \/ Link

----------------------------------------------------------------------------
(* Properties of the specification itself                                   *)

(* every failure is explained, and failing has no effect on the files *)
Explained == phase = "end" => (rc = 1 => err # <<>>)
Given == {In.fs[n].p : n \in DOMAIN In.fs}
FailureIsClean == (phase = "end" /\ rc = 1) =>
    /\ \A p \in DOMAIN fs \ Given : fs[p] = "?"
    /\ \A n \in DOMAIN In.fs : LET p == In.fs[n].p IN p \in DOMAIN fs => fs[p] \in {In.fs[n].k, "?"}
(* success that is not about help, version or an empty source has made exactly one thing *)
Made == {p \in DOMAIN fs : fs[p] \notin {"src", "dir", "file", "full", "?"}}
SuccessMakes == (phase = "end" /\ rc = 0 /\ out \notin {"usage", "version"}) =>
    Cardinality(Made) + (IF out = "" THEN 0 ELSE 1) <= 1
(* the sources are never touched unless they are named as output *)
SourcesStay == phase = "end" => \A n \in DOMAIN In.fs :
    LET p == In.fs[n].p IN (In.fs[n].k = "src" /\ (o.file = <<>> \/ p # Norm(Target)) /\ (o.rest = <<>> \/ p \notin {o.rest[m] : m \in DOMAIN o.rest})) => p \in DOMAIN fs /\ fs[p] = "src"
NoObjLeft == phase = "end" => obj = ""
ForwardC == [][phase = "args" \/ k' = k]_cvars
==============================================================================
