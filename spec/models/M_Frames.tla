------------------------------ MODULE M_Frames ------------------------------
(* A vector carried back and forth along the chain of coordinate systems with *)
(* quarter turns, in exact integer arithmetic: J is the accumulated           *)
(* transformation. Histories of MaxLen transformations are the scenarios.     *)
EXTENDS Frames, TLC, Json, IOUtils, FiniteSets
CONSTANTS MaxLen, Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
Sin(q) == <<0, 1, 0, -1>>[q + 1]
Cos(q) == <<1, 0, -1, 0>>[q + 1]
AddI(a, b) == a + b
SubI(a, b) == a - b
MulI(a, b) == a * b
Keys == {"dbeta", "dyaw", "dtilt", "dazimuth", "dprecone", "dtheta"}
VARIABLES turns, start, frame, J, path
vars == <<turns, start, frame, J, path>>
\* J as the images of the three unit vectors
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Apply(t, q, M) == [k \in 1..3 |-> Turn(t.axis, t.sense * Sin(q), Cos(q), M[k], AddI, SubI, MulI)]
Q(t) == IF t.axis = 0 THEN 0 ELSE turns[t.key]
Init == /\ turns \in {[k \in Keys |-> IF k \in {"dbeta", "dazimuth"} THEN a ELSE IF k \in {"dtilt", "dtheta"} THEN b ELSE c] : a \in 0..3, b \in 0..3, c \in 0..3}
        /\ start \in 1..8 /\ frame = start /\ J = Id /\ path = <<>>
Go(name) == LET t == Transforms[name]
            IN /\ Len(path) < MaxLen /\ t.from = frame
               /\ frame' = t.to /\ J' = Apply(t, Q(t), J) /\ path' = Append(path, name)
               /\ UNCHANGED <<turns, start>>
               /\ (IF Len(path) + 1 < MaxLen \/ (\E k \in Keys : turns[k] # 1) THEN TRUE
                   ELSE PrintT("SCENARIO " \o ToJson([path |-> path'])))
Next == \E name \in DOMAIN Transforms : Go(name)
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Det(M) == M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
          + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
\* lengths and angles are kept; handedness changes exactly when the profile exchange is passed an odd number of times
Orthogonal == \A i, k \in 1..3 : Dot(J[i], J[k]) = (IF i = k THEN 1 ELSE 0)
Handed == Det(J) = IF (frame = 8) = (start = 8) THEN 1 ELSE -1
\* the transformation depends on the two frames only: there and back is the identity
RECURSIVE Direct(_, _, _)
Direct(f, g, M) == IF f = g THEN M
                   ELSE LET name == CHOOSE x \in DOMAIN Transforms : Transforms[x].from = f /\ Transforms[x].to = (IF f < g THEN f + 1 ELSE f - 1)
                            t == Transforms[name]
                        IN Direct(t.to, g, Apply(t, Q(t), M))
PathFree == J = Direct(start, frame, Id)
=============================================================================
