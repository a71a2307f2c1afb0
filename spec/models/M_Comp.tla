------------------------------- MODULE M_Comp -------------------------------
(* Components in an optimisation driver: two components of one kind, each     *)
(* given new inputs, run and differentiated in any order. A component keeps   *)
(* the derivatives of its last run in itself (`kept`) and answers a later     *)
(* differentiation from there; its inputs come in versions. Histories are the *)
(* scenarios replayed on the code.                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Depth, Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
Comps == {1, 2}
Versions == 1..3
None == 0
VARIABLES in, out, kept, log, ans, done
vars == <<in, out, kept, log, ans, done>>
Init == in = [c \in Comps |-> None] /\ out = in /\ kept = in /\ log = <<>> /\ ans = None /\ done = FALSE

Step(c, a, v) == log' = Append(log, [c |-> c, a |-> a, v |-> v])
\* only what differs from the inputs at hand is set
Set(c, v) == in[c] # v /\ in' = [in EXCEPT ![c] = v] /\ Step(c, "set", v) /\ ans' = v /\ UNCHANGED <<out, kept>>
Run(c) == in[c] # None /\ out' = [out EXCEPT ![c] = in[c]] /\ kept' = [kept EXCEPT ![c] = in[c]] /\ Step(c, "run", in[c]) /\ ans' = out'[c] /\ UNCHANGED in
\* differentiation is asked for at the inputs of the last run
Diff(c) == out[c] # None /\ out[c] = in[c] /\ ans' = kept[c] /\ Step(c, "diff", in[c]) /\ UNCHANGED <<in, out, kept>>
W(e) == e.v + 3 * e.c + (IF e.a = "run" THEN 7 ELSE IF e.a = "diff" THEN 11 ELSE 0)
RECURSIVE Code(_)
Code(i) == IF i > Len(log) THEN 0 ELSE (i * W(log[i]) + 31 * Code(i + 1)) % 9973
\* histories worth replaying: some component is run for two versions
Telling == \E i, j \in 1..Len(log) : i < j /\ log[i].a = "run" /\ log[j].a \in {"run", "diff"} /\ log[i].c = log[j].c /\ log[i].v # log[j].v
Stop == /\ ~done /\ Len(log) = Depth /\ done' = TRUE /\ UNCHANGED <<in, out, kept, log, ans>>
        /\ (IF Telling /\ (Code(1) + Seed) % Every = 0 THEN PrintT("SCENARIO " \o ToJson([steps |-> log, opt |-> Code(1) \div Every])) ELSE TRUE)
Next == \/ Len(log) < Depth /\ ~done /\ UNCHANGED done /\ \E c \in Comps : Run(c) \/ Diff(c) \/ \E v \in Versions : Set(c, v)
        \/ Stop
\* what a step answers is of the inputs it was asked for, and components do not touch each other
Fresh == log = <<>> \/ ans = log[Len(log)].v
Apart == [][\A c \in Comps : Len(log') > Len(log) /\ log'[Len(log')].c # c => in'[c] = in[c] /\ out'[c] = out[c] /\ kept'[c] = kept[c]]_vars
Kept == \A c \in Comps : kept[c] = out[c]
=============================================================================
