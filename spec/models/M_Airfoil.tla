------------------------------ MODULE M_Airfoil ------------------------------
(* An airfoil table and the curve through it: which polynomial degrees a      *)
(* table of nA angles and nR Reynolds numbers gets, what a query returns and  *)
(* where its slopes vanish, and where the design points are looked for. The   *)
(* nearest-angle search is explored on every sparse table in steps of 20      *)
(* degrees; configurations are the scenarios.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
VARIABLES cfg, pc, deg, ans, searched
vars == <<cfg, pc, deg, ans, searched>>
\* sparse tables over -180..180 with inner angles among these; other counts are dense tables
Inner == {-80, -40, -20, 0, 20, 40, 80}
NA == {1, 2, 3, 4, 5, 30}
NR == {0, 1, 2, 3, 4, 5}
Where == {"at", "inside", "below", "above"}
None == [out |-> 0, dA |-> TRUE, dR |-> TRUE, err |-> FALSE]
Init == /\ pc = "table" /\ deg = <<0, 0>> /\ ans = None /\ searched = "not"
        /\ \/ \E a \in NA, r \in NR, m \in BOOLEAN, q \in BOOLEAN, wa \in Where, wr \in Where :
                cfg = [kind |-> "dense", nA |-> a, nR |-> r, cm |-> m, ask |-> q, wa |-> wa, wr |-> wr, inner |-> {}]
           \/ \E I \in SUBSET Inner, r \in {1, 3} :
                cfg = [kind |-> "sparse", nA |-> Cardinality(I) + 2, nR |-> r, cm |-> FALSE, ask |-> FALSE, wa |-> "inside", wr |-> "inside", inner |-> I]
Single == cfg.nR < 2
Cols == IF Single THEN 2 ELSE cfg.nR
Lesser(a, b) == IF a < b THEN a ELSE b
Build == /\ pc = "table"
         /\ IF cfg.nA < 2 THEN pc' = "refused" /\ UNCHANGED <<deg, ans>>
            ELSE pc' = "ready" /\ deg' = <<Lesser(cfg.nA - 1, 3), Lesser(Cols - 1, 3)>> /\ UNCHANGED ans
         /\ UNCHANGED <<cfg, searched>>
Query == /\ pc = "ready" /\ pc' = "asked"
         /\ ans' = [out |-> IF cfg.cm /\ cfg.ask THEN 3 ELSE 2, dA |-> cfg.wa \in {"at", "inside"}, dR |-> ~Single /\ cfg.wr \in {"at", "inside"}, err |-> FALSE]
         /\ UNCHANGED <<cfg, deg, searched>>
\* design points: nearest tabulated angles to the ends of the searched range
Angles == cfg.inner \cup {-180, 180}
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Nearest(x) == CHOOSE a \in Angles : \A b \in Angles : Dist(a, x) < Dist(b, x) \/ (Dist(a, x) = Dist(b, x) /\ a <= b)
Search == /\ pc = "asked" /\ pc' = "done" /\ UNCHANGED <<cfg, deg, ans>>
          /\ searched' = (IF cfg.kind = "dense" THEN "grid" ELSE IF Nearest(-20) = Nearest(40) THEN "zero" ELSE "grid")
          /\ (IF (cfg.nA * 7 + cfg.nR * 3 + Cardinality(cfg.inner) + Seed) % Every # 0 THEN TRUE
              ELSE PrintT("SCENARIO " \o ToJson([cfg |-> cfg, zero |-> searched' = "zero"])))
Refused == pc = "refused" /\ pc' = "done" /\ UNCHANGED <<cfg, deg, ans, searched>> /\ PrintT("SCENARIO " \o ToJson([cfg |-> cfg, zero |-> FALSE]))
Next == Build \/ Query \/ Search \/ Refused
\* degrees that a spline through the table can have, smooth as soon as there are three points
Degrees == pc = "ready" => /\ 1 <= deg[1] /\ deg[1] < cfg.nA /\ 1 <= deg[2] /\ deg[2] < Cols /\ deg[1] <= 3 /\ deg[2] <= 3
                           /\ (cfg.nA >= 3 => deg[1] >= 2) /\ (Cols >= 3 => deg[2] >= 2)
Moments == pc \in {"asked", "done"} /\ cfg.nA >= 2 => (ans.out = 3 <=> (cfg.cm /\ cfg.ask))
SingleRe == pc \in {"asked", "done"} /\ cfg.nA >= 2 /\ cfg.nR < 2 => ~ans.dR
\* a table that has an angle on one side only of the middle of the searched range is searched on the grid
Resolved == searched # "not" /\ cfg.kind = "sparse" => (searched = "zero" <=> \E a \in Angles : \A b \in Angles : (Dist(a, -20) < Dist(b, -20) \/ (Dist(a, -20) = Dist(b, -20) /\ a <= b))
                                                                         /\ (Dist(a, 40) < Dist(b, 40) \/ (Dist(a, 40) = Dist(b, 40) /\ a <= b)))
Cylinder == searched # "not" /\ cfg.kind = "sparse" /\ cfg.inner = {0} => searched = "zero"
Covered == searched # "not" /\ cfg.kind = "sparse" /\ -20 \in cfg.inner /\ 40 \in cfg.inner => searched = "grid"
=============================================================================
