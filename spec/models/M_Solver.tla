------------------------------ MODULE M_Solver ------------------------------
(* The search for the inflow angle as a state machine over the signs of the  *)
(* residual at the interval ends (3: not a number), one action per step of   *)
(* the code, and one action for the root finder.                             *)
EXTENDS Solver, TLC

VARIABLES pc, sg, lo, hi, result
vars == <<pc, sg, lo, hi, result>>
Signs == {-1, 0, 1, 3}
Init == /\ pc = "std" /\ sg \in [{"e", "q", "b1", "b2", "p"} -> Signs]
        /\ lo = "e" /\ hi = "q" /\ result = "?"
\* the product of the end values is positive
Same(x, y) == sg[x] # 3 /\ sg[y] # 3 /\ sg[x] * sg[y] > 0
TestStd == /\ pc = "std"
           /\ pc' = IF Same("e", "q") THEN "brake" ELSE "brent"
           /\ UNCHANGED <<sg, lo, hi, result>>
TestBrake == /\ pc = "brake"
             /\ IF sg["b1"] = -1 /\ sg["b2"] = 1 THEN lo' = "b1" /\ hi' = "b2" ELSE lo' = "q" /\ hi' = "p"
             /\ pc' = "brent" /\ UNCHANGED <<sg, result>>
\* the root finder succeeds exactly when the ends do not have the same sign and are numbers
Brent == /\ pc = "brent"
         /\ result' = IF sg[lo] = 3 \/ sg[hi] = 3 \/ Same(lo, hi) THEN "none"
                      ELSE IF lo = "e" THEN "std" ELSE IF lo = "b1" THEN "brake" ELSE "prop"
         /\ pc' = "done" /\ UNCHANGED <<sg, lo, hi>>
Next == TestStd \/ TestBrake \/ Brent

Done == pc = "done"
Numbers == \A x \in DOMAIN sg : sg[x] # 3
\* C02: the preferred interval of the property is the one that is searched
Preferred == Done /\ sg["e"] # 3 /\ sg["q"] # 3 => result = Interval(sg["e"], sg["q"], sg["b1"], sg["b2"], sg["p"])
\* C02: the search only ever starts on an interval that has a root, or reports none
Bracketed == Done /\ result # "none" => Changes(sg[lo], sg[hi])
StdFirst == Done /\ Changes(sg["e"], sg["q"]) => result = "std"
\* with drag and positive wind components R(0+) < 0 and R(pi-) > 0: an interval is always found
Guaranteed == Done /\ Numbers /\ sg["e"] = -1 /\ sg["p"] = 1 => result # "none"
Terminates == <>Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
