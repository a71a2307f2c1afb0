------------------------------ MODULE M_Stencil ------------------------------
(* Propagation of a change of one input of one station through the analysis, *)
(* one quantity per step: positions, segment angles, cone angles, inflow,    *)
(* loads. The set of loads reached is the Jacobian's non-zero pattern.       *)
EXTENDS Stencil, FiniteSets, TLC
CONSTANT MaxN
VARIABLES n, name, j, pc, pos, seg, cone, load
vars == <<n, name, j, pc, pos, seg, cone, load>>
Init == /\ n \in 2..MaxN /\ j \in 1..n /\ name \in Diagonal \cup Tridiagonal
        /\ pc = "input" /\ pos = {} /\ seg = {} /\ cone = {} /\ load = {}
Input == /\ pc = "input" /\ pc' = "segments"
         /\ pos' = IF name \in {"dr", "dprecurve", "dpresweep"} THEN {j} ELSE {}
         /\ load' = {j} /\ UNCHANGED <<n, name, j, seg, cone>>
\* a swept position changes no segment angle (they lie in the x-z plane)
SegmentAngles == /\ pc = "segments" /\ pc' = "cones"
                 /\ seg' = IF name = "dpresweep" THEN {} ELSE {s \in 1..(n - 1) : {s, s + 1} \cap pos # {}}
                 /\ UNCHANGED <<n, name, j, pos, cone, load>>
Cones == /\ pc = "cones" /\ pc' = "inflow"
         /\ cone' = {i \in 1..n : Segments(n, i) \cap seg # {}} /\ UNCHANGED <<n, name, j, pos, seg, load>>
Inflow == /\ pc = "inflow" /\ pc' = "done"
          /\ load' = load \cup pos \cup cone /\ UNCHANGED <<n, name, j, pos, seg, cone>>
Next == Input \/ SegmentAngles \/ Cones \/ Inflow
\* the pattern of Stencil, and that it is (tri)diagonal
Pattern == pc = "done" => load = {i \in 1..n : Depends(n, name, i, j)}
Band == pc = "done" => \A i \in load : IF name \in Diagonal THEN i = j ELSE i - j \in -1..1
Symmetric == \A i \in 1..n : j \in ConeInputs(n, i) <=> i \in ConeInputs(n, j)
=============================================================================
