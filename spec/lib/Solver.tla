------------------------------- MODULE Solver -------------------------------
(* Choice of the search interval of the flow angle from the signs of the      *)
(* residual at interval ends (-1, 0, 1; 2: not known; 3: not a number).       *)
(*   std   (0, pi/2]     brake (-pi/4, 0)     prop  [pi/2, pi)                 *)
EXTENDS Integers

Unsure(x) == x = 2
\* opposite (or zero) signs at both ends
Changes(x, y) == x \notin {2, 3} /\ y \notin {2, 3} /\ x * y <= 0
Interval(e, q, b1, b2, p) ==
    IF Unsure(e) \/ Unsure(q) THEN "unsure"
    ELSE IF Changes(e, q) THEN "std"
    ELSE IF Unsure(b1) \/ Unsure(b2) THEN "unsure"
    ELSE IF b1 = -1 /\ b2 = 1 THEN "brake"
    ELSE IF Unsure(p) THEN "unsure"
    ELSE IF Changes(q, p) THEN "prop"
    ELSE "none"
=============================================================================
