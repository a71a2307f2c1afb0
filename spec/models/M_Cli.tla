------------------------------- MODULE M_Cli --------------------------------
(* A directory of airfoil files and the commands of the preprocessor: what    *)
(* each command reads, computes (contents are symbolic) and writes, and under *)
(* which name. Pipelines of Depth commands are explored: results feed later   *)
(* commands, and an output may overwrite an input.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth, Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
VARIABLES dir, log, n
vars == <<dir, log, n>>
\* a name is <<folder, root, extension>>
A == <<"", "a", ".dat">>
B == <<"sub/", "b", ".txt">>
Content(op, args, kind) == [op |-> op, args |-> args, kind |-> kind]
Init == dir = (A :> Content("A", <<>>, "raw")) @@ (B :> Content("B", <<>>, "raw")) /\ log = <<>> /\ n = 0

W == {"0.3", "1"}
Named == <<"", "out", ".dat">>
DefaultName(c, src, other, w) ==
    IF c = "stall3D" THEN <<src[1], src[2] \o "_3D", src[3]>>
    ELSE IF c = "extrap" THEN <<src[1], src[2] \o "_extrap", src[3]>>
    ELSE <<src[1], src[2] \o "+" \o other[2] \o "_blend" \o w, other[3]>>
Target(c, src, other, w, out) == IF out = "default" THEN DefaultName(c, src, other, w) ELSE IF out = "given" THEN Named ELSE src
\* extrapolated files are not extrapolated or corrected again
Allowed(c, f) == dir[f].kind = "raw" \/ c = "blend"
Result(c, src, other, w) ==
    IF c = "blend" THEN Content(c, <<dir[src], dir[other], w>>, IF dir[src].kind = "full" /\ dir[other].kind = "full" THEN "full" ELSE "raw")
    ELSE Content(c, <<dir[src]>>, IF c = "extrap" THEN "full" ELSE "raw")
Run(c, src, other, w, out, common) ==
    /\ n < Depth /\ Allowed(c, src) /\ n' = n + 1
    /\ c = "blend" => dir[src].kind = dir[other].kind
    /\ LET t == Target(c, src, other, w, out)
       IN  /\ dir' = (t :> Result(c, src, other, w)) @@ dir
           /\ log' = Append(log, [cmd |-> c, src |-> src, other |-> other, w |-> w, out |-> out, common |-> common, target |-> t])
\* a number for a pipeline, to choose scenarios by
Code == LET c(e) == (IF e.cmd = "blend" THEN 3 ELSE IF e.cmd = "extrap" THEN 2 ELSE 1) + 5 * Len(e.out) + 11 * Len(e.target[2]) + 17 * Len(e.src[2]) + 23 * Len(e.other[2] \o e.w)
                    + (IF e.common THEN 29 ELSE 0)
        IN IF Depth = 2 THEN c(log[1]) + 37 * c(log[2]) ELSE c(log[1]) + 37 * c(log[2]) + 41 * c(log[3])
Emit == PrintT("SCENARIO " \o ToJson([steps |-> log]))
Done == n = Depth /\ n' = n + 1 /\ UNCHANGED <<dir, log>> /\ (IF (Code + Seed) % Every = 0 THEN Emit ELSE TRUE)
Next == \/ \E src \in DOMAIN dir : \E out \in {"default", "given", "inplace"} : \E common \in BOOLEAN :
              \/ \E c \in {"stall3D", "extrap"} : Run(c, src, src, "", out, common)
              \/ \E other \in DOMAIN dir : \E w \in W : Run("blend", src, other, w, out, common)
        \/ Done
Spec == Init /\ [][Next]_vars
\* one file is written by a command, inputs survive unless overwritten on request, and default names never overwrite an input
Steps == [][n < Depth => /\ Cardinality({f \in DOMAIN dir' : f \notin DOMAIN dir \/ dir'[f] # dir[f]}) <= 1
                         /\ DOMAIN dir \subseteq DOMAIN dir'
                         /\ LET e == log'[Len(log')] IN
                            /\ e.out = "default" => (e.target # e.src /\ e.target # e.other)
                            /\ (e.target # e.src => dir'[e.src] = dir[e.src]) /\ (e.target # e.other => dir'[e.other] = dir[e.other])]_<<dir, log>>
\* files next to their sources: a default name stays in the folder of the source
Placed == \A i \in 1..Len(log) : log[i].out = "default" => log[i].target[1] = log[i].src[1]
=============================================================================
