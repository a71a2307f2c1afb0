------------------------------- MODULE Stencil -------------------------------
(* Which inputs the loads of a station can depend on (shape of the Jacobians, *)
(* C09): the local cone angle is that of the neighbouring blade segments.     *)
EXTENDS Integers

Segments(n, i) == {s \in {i - 1, i} : 1 <= s /\ s <= n - 1}        \* segment s joins stations s and s + 1
ConeInputs(n, i) == UNION {{s, s + 1} : s \in Segments(n, i)}      \* stations the cone angle of i depends on
Diagonal == {"dchord", "dtheta", "dpresweep"}
Tridiagonal == {"dr", "dprecurve"}
Scalars == {"dRhub", "dRtip", "dprecone", "dtilt", "dhubHt", "dyaw", "dshear", "dazimuth", "dUinf", "dOmega", "dpitch"}
Depends(n, name, i, j) == IF name \in Diagonal THEN i = j ELSE j \in ConeInputs(n, i) \cup {i}
=============================================================================
