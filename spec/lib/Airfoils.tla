------------------------------ MODULE Airfoils ------------------------------
(* The airfoil families used by the drivers, as functions of the angle of    *)
(* attack (radians) and the Reynolds number. A family member is described by *)
(* a record [kind, p]; harness/airfoils.py implements the same functions for *)
(* the code under test.                                                      *)
(*   const  cl = p1                            cd = p2                        *)
(*   trig   cl = p1 s c (1 + p5 ln(Re/1e6))    cd = p2 + p4 s^2 + p6 ln(Re/1e6) *)
(*          with s, c = sin, cos(alpha - p3)                                  *)
EXTENDS IEEE

ReRef == RLit("1e6")
LnRe(Re) == RLog(RAbs(Re) (/) ReRef)

AfCl(af, alpha, Re) ==
    IF af.kind = "const" THEN af.p[1]
    ELSE LET t == alpha (-) af.p[3]
             base == af.p[1] (.) RSin(t) (.) RCos(t)
         IN  IF af.p[5] = R0 THEN base ELSE base (.) (R1 (+) (af.p[5] (.) LnRe(Re)))
AfCd(af, alpha, Re) ==
    IF af.kind = "const" THEN af.p[2]
    ELSE LET t == alpha (-) af.p[3]
             base == af.p[2] (+) (af.p[4] (.) RSq(RSin(t)))
         IN  IF af.p[6] = R0 THEN base ELSE base (+) (af.p[6] (.) LnRe(Re))
AfIsNull(af) == af.kind = "const" /\ af.p[1] = R0 /\ af.p[2] = R0
AfUsesRe(af) == af.kind = "trig" /\ (af.p[5] # R0 \/ af.p[6] # R0)
=============================================================================
