---------------------------------- MODULE Det ----------------------------------
(***************************************************************************)
(* What the compiler makes is a function of the source and the options:     *)
(* where and when it is called, what the environment holds and what earlier *)
(* calls left behind play no part; and of an accepted source only the       *)
(* tokens count, not blanks, comments and empty lines.                      *)
(*                                                                          *)
(* An input is a history of calls, [src, bad, form, place, plain, rc, out,  *)
(* err]; the state is what has been learned of the function so far.  A call *)
(* that contradicts it is a fault.  (plain: the output has no positions or  *)
(* comments of the source in it)                                            *)
(***************************************************************************)
EXTENDS Lex, Json, IOUtils

TracesFile == IOEnv.SKULL_TRACES
Traces == ReadInputs(TracesFile)
CONSTANT Inputs  \* histories: [id, texts, obs: [calls]]

VARIABLES i, k,
          lx, es,  \* the text that is being read, and the tokens of those read before
          same,    \* text |-> the first text with the same tokens
          known,   \* <<form, text>> |-> [rc, out, err]
          means,   \* <<form, class of texts>> |-> out
          faults   \* calls that contradict what was known

vars == <<i, k, lx, es, same, known, means, faults>>
In == Inputs[i]
Calls == In.obs.calls
C == Calls[k]

(* the tokens of a text without comments and needless line ends *)
Essence(toks) ==
    LET t == TLCEval(SelectSeq(toks, LAMBDA x : x.k # "comment"))
        e == TLCEval([n \in DOMAIN t |-> IF t[n].k = "nl" /\ (n = 1 \/ t[n-1].k = "nl") THEN <<>> ELSE <<t[n].k, t[n].s>>])
        f == SelectSeq(e, LAMBDA y : y # <<>>)
    IN IF f # <<>> /\ f[Len(f)][1] = "nl" THEN SubSeq(f, 1, Len(f) - 1) ELSE f

Texts == In.texts
Init == i \in DOMAIN Inputs /\ k = 0 /\ lx = <<>> /\ es = <<>> /\ same = <<>> /\ known = <<>> /\ means = <<>> /\ faults = <<>>

(* the texts are read one after another, line by line *)
Used == {Calls[n].text : n \in {m \in DOMAIN Calls : Calls[m].plain /\ Calls[m].rc = 0}}
Read ==
    /\ k = 0 /\ Len(es) < Len(Texts) /\ UNCHANGED <<i, k, same, known, means, faults>>
    /\ LET n == Len(es) + 1
           src == Texts[n].src
       IN IF n \notin Used \/ Texts[n].bad # 0 THEN es' = Append(es, <<n>>) /\ UNCHANGED lx
          ELSE IF lx = <<>> THEN lx' = LexInit(src) /\ UNCHANGED es
          ELSE IF lx.done THEN lx' = <<>> /\ es' = Append(es, Essence(lx.toks))
          ELSE lx' = LexLine(src, lx) /\ UNCHANGED es
Sort ==
    /\ k = 0 /\ Len(es) = Len(Texts) /\ k' = 1 /\ UNCHANGED <<i, lx, es, known, means, faults>>
    /\ same' = [n \in DOMAIN Texts |-> CHOOSE m \in 1 .. n : es[m] = es[n] /\ \A q \in 1 .. m - 1 : es[q] # es[n]]

Add(f, key, v) == [q \in DOMAIN f \cup {key} |-> IF q = key THEN v ELSE f[q]]
Call_ ==
    /\ k \in DOMAIN Calls
    /\ LET key == <<C.form, C.text>>
           r == [rc |-> C.rc, out |-> C.out, err |-> C.err]
           m == <<C.form, same[C.text]>>
           meant == C.plain /\ C.rc = 0 /\ Texts[C.text].bad = 0
           f1 == IF key \in DOMAIN known /\ known[key] # r THEN <<[n |-> k, why |-> "same source and options"]>> ELSE <<>>
           f2 == IF meant /\ m \in DOMAIN means /\ means[m] # C.out THEN <<[n |-> k, why |-> "same tokens and options"]>> ELSE <<>>
       IN /\ known' = IF key \in DOMAIN known THEN known ELSE Add(known, key, r)
          /\ means' = IF meant /\ m \notin DOMAIN means THEN Add(means, m, C.out) ELSE means
          /\ faults' = faults \o f1 \o f2
    /\ k' = k + 1 /\ UNCHANGED <<i, lx, es, same>>

Done_ == /\ k = Len(Calls) + 1 /\ k' = k + 1 /\ UNCHANGED <<i, lx, es, same, known, means, faults>>
         /\ Emit(ToJson([id |-> In.id, open |-> FALSE, faults |-> faults, essences |-> Cardinality({q[2] : q \in DOMAIN means}), texts |-> Len(Texts)]))
Next == Read \/ Sort \/ Call_ \/ Done_

(* what is known is never forgotten or revised *)
Learned == [][\A q \in DOMAIN known : known'[q] = known[q]]_vars
View == <<i, k, Len(es), IF lx = <<>> THEN <<>> ELSE <<lx.p, lx.done>>>>
==============================================================================
