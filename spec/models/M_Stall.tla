------------------------------- MODULE M_Stall -------------------------------
(* Where a polar departs from its linear range: the search for the stall      *)
(* angle on a grid of angles. dev[k] says that the shortfall of the normal    *)
(* force at grid angle k has reached the stall threshold. The shortfall need  *)
(* not be monotone (flow may reattach); the search halves the grid, as        *)
(* interpolation in an ordered table does. Whatever the pattern, the angle    *)
(* found is a crossing of the threshold, or an end of the grid when the       *)
(* search starts above or stays below the threshold.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
VARIABLES dev, lo, hi, res
vars == <<dev, lo, hi, res>>
Init == dev \in [1..N -> BOOLEAN] /\ lo = 1 /\ hi = N + 1 /\ res = "searching"
\* reached at the first angle already / not even at the last one
Ends == /\ res = "searching" /\ lo = 1 /\ hi = N + 1
        /\ IF ~dev[N] THEN res' = "last" /\ lo' = N /\ hi' = N + 1
           ELSE IF dev[1] THEN res' = "first" /\ UNCHANGED <<lo, hi>>
           ELSE res' = "halving" /\ lo' = 1 /\ hi' = N
        /\ PrintT("SCENARIO " \o ToJson([dev |-> dev])) /\ UNCHANGED dev
Halve == /\ res = "halving" /\ hi - lo > 1
         /\ LET mid == (lo + hi) \div 2
            IN IF dev[mid] THEN hi' = mid /\ UNCHANGED lo ELSE lo' = mid /\ UNCHANGED hi
         /\ UNCHANGED <<dev, res>>
Found == res = "halving" /\ hi - lo = 1 /\ res' = "crossing" /\ UNCHANGED <<dev, lo, hi>>
Next == Ends \/ Halve \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bracketed == res \in {"halving", "crossing"} => lo < hi /\ ~dev[lo] /\ dev[hi]
Right == /\ res = "crossing" => hi = lo + 1 /\ ~dev[lo] /\ dev[hi]
         /\ res = "last" => ~dev[N]
         /\ res = "first" => dev[1]
\* with a single departure every search finds it
Unique == (res = "crossing" /\ \A k \in 1..(N - 1) : dev[k] => dev[k + 1]) => \A k \in 1..N : dev[k] <=> k >= hi
Terminates == <>(res \in {"crossing", "first", "last"})
=============================================================================
