-------------------------------- MODULE CliGen --------------------------------
(***************************************************************************)
(* Enumerates command lines: "args" all short sequences of arguments,       *)
(* "modes" what can be made from which source, to which place, with which   *)
(* linker, "pairs" two options before and one after the source.             *)
(***************************************************************************)
EXTENDS Native, Naturals, Sequences, FiniteSets, Json, IOUtils

Kit == IOEnv.SKULL_KIT
VARIABLES c
vars == <<c>>

None == <<>>
Words == {"-c", "-S", "-E", "-g", "-q", "-O1", "-O2", "-O3", "-O", "-O4", "-O12", "-Ox", "--c-backend", "--werror", "--llvm-no-verify", "--color",
          "-h", "-v", "--help", "--version", "-", "--", "-x", "-xy", "-cE", "--nope", "--c", "--colors", "--Werror", "-o", "", "a.sk", "w.sk", "e.sk", "a", "no.sk", "sk", ".sk", "sub/.sk", "a.skx", "-Eq", "-o1", "-G", "--help2", "-hh"}
Few == {"-c", "-S", "-E", "-g", "-q", "-O1", "-O2", "-O3", "--c-backend", "--werror", "--llvm-no-verify", "--color", "-h", "-v", "--help", "--version", "-o", "--", "-x", "--nope", "a.sk", "w.sk"}

Case_(args, env, linker) == [args |-> args, env |-> env, linker |-> linker]

Envs == {None, <<"1">>, <<"0">>, <<"">>, <<"10">>}
ArgSeqs == {<<>>} \cup {<<a>> : a \in Words} \cup {<<a, b>> : a \in Words, b \in Words} \cup {<<"a.sk", a, b>> : a \in Words, b \in Words}
           \cup {<<a, b, "w.sk">> : a \in Words, b \in Few} \cup {<<a, b, d>> : a \in Few, b \in Few, d \in Few}
           \cup {<<a, "-o", d, "a.sk">> : a \in Few, d \in {"out", "-", "--", "-E", "a", ""}}
ArgsKit == {Case_(a, None, "ok") : a \in ArgSeqs} \cup {Case_(<<"w.sk", a, b>>, e, "ok") : a \in Few, b \in Few, e \in Envs}
           \cup {Case_(<<"e.sk", "-E", a>>, e, "ok") : a \in Few, e \in Envs}

(* what is to be made, from what, to where *)
Forms == {<<>>, <<"-E">>, <<"-S">>, <<"-c">>, <<"--c-backend">>, <<"--c-backend", "-E">>, <<"--c-backend", "-c">>}
Srcs == {"a.sk", "w.sk", "e.sk", "p.sk", "n.sk", "u.sk", "sub/a.sk", "./a.sk", "d.sk", "b.sk", "s p.sk", "q'$.sk", "x.txt", "st.sk", "blk.sk", "no.sk", "none/a.sk", "a.b.sk", "sub/w.sk", "a.sk.sk", "l.sk", "sub.d/a.sk", "ü.sk", "i\"j\\k.sk", "1 2.sk"}
Outs == {<<>>, <<"-o", "out">>, <<"-o", "-">>, <<"-o", "old">>, <<"-o", "dd">>, <<"-o", "none/out">>, <<"-o", "sub/out">>, <<"-o", "full">>, <<"-o", "">>, <<"-o", "o p">>, <<"-o", "o'$(x)">>, <<"-o", "./out.sk.o">>, <<"-o", "-out">>}
Opts == {<<>>, <<"-g">>, <<"-O1">>, <<"-O3">>, <<"-q">>, <<"--werror">>, <<"--llvm-no-verify">>, <<"-O2", "-g">>, <<"--color">>}
Linkers == {"ok", "none", "fail", "kill", "killsh", "part"}
Rests == {<<>>, <<"--", "-lm">>, <<"--", "missing.o">>, <<"--", "-o", "other">>, <<"--", "-g", "-lm">>, <<"--", "ext.o">>, <<"--", "-E">>, <<"--", "--">>, <<"--", "">>, <<"--", "", "-lm">>, <<"--", "-lm", "">>, <<"--", "ext.o", "", "-g">>,
          <<"--", "sub/s p.o">>, <<"--", "q'$(x).o", "-lm">>, <<"--", "x y.o">>, <<"--", "z'$.o", "-lm">>, <<"--", "-lm", "x y.o", "">>, <<"--", "-lm", "-lm", "-g", "ext.o">>}
IsBin(f) == f \in {<<>>}
ModesKit ==
    {Case_(<<s>> \o f \o out, None, "ok") : s \in Srcs, f \in Forms, out \in Outs}
    \cup {Case_(f \o opt \o out \o <<s>>, None, "ok") : s \in {"a.sk", "w.sk", "e.sk", "sub/a.sk", "st.sk", "i\"j\\k.sk"}, f \in Forms, opt \in Opts, out \in {<<>>, <<"-o", "out">>, <<"-o", "old">>}}
    \cup {Case_(<<s>> \o out \o opt \o r, None, l) : s \in {"a.sk", "w.sk", "sub/a.sk", "st.sk", "s p.sk", "e.sk", "b.sk"}, out \in Outs \ {<<"-o", "full">>}, opt \in {<<>>, <<"-g">>}, r \in {<<>>}, l \in Linkers}
    \cup {Case_(<<s>> \o f \o out \o r, None, l) : s \in {"a.sk", "w.sk", "st.sk", "e.sk"}, f \in {<<>>, <<"-c">>, <<"-E">>}, out \in {<<>>, <<"-o", "out">>}, r \in Rests, l \in {"ok", "fail"}}
Good(x) == (* a program is not written to a device; LLVM writes some names in a way assemblers do not read *)
    LET has(w) == \E n \in DOMAIN x.args : x.args[n] = w
    IN /\ ~(has("-S") /\ has("i\"j\\k.sk"))
       /\ has("full") => (has("-E") \/ has("-S") \/ has("-c") \/ has("--c-backend"))

Init == c \in [k : {"go"}]
Next == /\ c.k = "go" /\ c' = [k |-> "stop"]
        /\ \A x \in {y \in (IF Kit = "args" THEN ArgsKit ELSE ModesKit) : Good(y)} : Emit(ToJson(x))
==============================================================================
