------------------------------ MODULE M_Extrap -------------------------------
(* The angles of an extrapolated polar, assembled segment by segment in exact *)
(* arithmetic (degrees times N-1 for N points a segment), and the 10-degree   *)
(* grid on which the moments are defined. Every end of the original data in   *)
(* steps of 5 degrees is explored.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Ns
VARIABLES hi, lo, n, pc, al, seg
vars == <<hi, lo, n, pc, al, seg>>
\* scaled by n - 1
Lin(a, b) == [k \in 1..n |-> (n - 1) * a + (k - 1) * (b - a)]
Orig == <<(n - 1) * lo, (n - 1) * hi>>        \* ends of the original data stand for all of it
Init == /\ n \in Ns /\ hi \in {5 * k : k \in 1..17} /\ lo \in {5 * k : k \in -17..16} /\ lo < hi
        /\ pc = 1 /\ al = <<>> /\ seg = <<>>
Piece == <<IF TRUE THEN Lin(-180, -180 + hi) ELSE <<>>,
           Tail(Lin(-180 + hi, -90)),
           IF lo <= -hi THEN LET s == Tail(Lin(-90, lo)) IN SubSeq(s, 1, Len(s) - 1) ELSE Tail(Lin(-90, -hi)),
           IF lo <= -hi THEN <<>> ELSE LET s == Lin(-hi, lo) IN SubSeq(s, 2, n - 2),
           Orig, Tail(Lin(hi, 90)), Tail(Lin(90, 180 - hi)), Tail(Lin(180 - hi, 180))>>
Step == /\ pc <= 8 /\ pc' = pc + 1
        /\ al' = al \o Piece[pc] /\ seg' = seg \o [k \in 1..Len(Piece[pc]) |-> pc] /\ UNCHANGED <<hi, lo, n>>
        /\ (IF pc < 8 \/ n # 15 THEN TRUE ELSE PrintT("SCENARIO " \o ToJson([hi |-> hi, lo |-> lo])))
Next == Step
Increasing == \A k \in 1..(Len(al) - 1) : al[k] < al[k + 1]
Covers == pc = 9 => al[1] = -180 * (n - 1) /\ al[Len(al)] = 180 * (n - 1)
Holds == pc = 9 => \E k \in 1..Len(al) : al[k] = (n - 1) * lo /\ al[k + 1] = (n - 1) * hi /\ seg[k] = 5
\* no segment reaches into another: the model of a point follows from its angle alone
Region(a) == LET x == a IN IF x > (n - 1) * (180 - hi) THEN 8 ELSE IF x > (n - 1) * 90 THEN 7 ELSE IF x > (n - 1) * hi THEN 6 ELSE IF x >= (n - 1) * lo THEN 5
             ELSE IF lo > -hi /\ x > -(n - 1) * hi THEN 4 ELSE IF x > -(n - 1) * 90 THEN 3 ELSE IF x > (n - 1) * (hi - 180) THEN 2 ELSE 1
ByAngle == \A k \in 1..Len(al) : seg[k] = Region(al[k])
=============================================================================
