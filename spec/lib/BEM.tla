-------------------------------- MODULE BEM --------------------------------
(* Blade element momentum theory of one section (Ning 2013).                  *)
(* A section `s` is the record                                                *)
(*   [r, chord, theta, pitch (rad), af, Vx, Vy, Rhub, Rtip, B, rho, mu,       *)
(*    tiploss, hubloss, wakerotation, usecd, iterRe]                          *)
EXTENDS Airfoils

Lim == RLit("1e-6")                   \* ends of the open search intervals
TwoThirds == R2 (/) R3

LossFactor(f) == (R2 (/) RPi) (.) RAcos(RExp(RNeg(f)))
FTip(s, phi) == IF s.tiploss THEN LossFactor((s.B (.) RHalf) (.) ((s.Rtip (-) s.r) (/) (s.r (.) RAbs(RSin(phi))))) ELSE R1
FHub(s, phi) == IF s.hubloss THEN LossFactor((s.B (.) RHalf) (.) ((s.r (-) s.Rhub) (/) (s.Rhub (.) RAbs(RSin(phi))))) ELSE R1

\* Buhl's modification of Glauert's empirical relation: the root a of
\*   4 F a (1-a) -> 8/9 + (4F - 40/9) a + (50/9 - 4F) a^2 = 4 F k (1-a)^2
\* in the two algebraically equal forms, the one without cancellation being used
Buhl(k, F) ==
    LET g1 == (R2 (.) F (.) k) (-) ((R10 (/) RInt(9)) (-) F)
        g2 == (R2 (.) F (.) k) (-) (((R4 (/) R3) (-) F) (.) F)
        g3 == (R2 (.) F (.) k) (-) ((RInt(25) (/) RInt(9)) (-) (R2 (.) F))
        q  == RSqrt(g2)
    IN  [a |-> IF R0 \preceq g1 THEN ((R2 (.) F (.) k) (-) (R4 (/) RInt(9))) (/) (g1 (+) q)
               ELSE (g1 (-) q) (/) g3,
         g3 |-> g3]

\* momentum balance at flow angle phi with coefficients cl, cd
Momentum(s, phi, cl, cd) ==
    LET sp == RSin(phi)  cp == RCos(phi)
        solidity == (s.B (/) (R2 (.) RPi)) (.) (s.chord (/) s.r)
        cn == IF s.usecd THEN (cl (.) cp) (+) (cd (.) sp) ELSE cl (.) cp
        ct == IF s.usecd THEN (cl (.) sp) (-) (cd (.) cp) ELSE cl (.) sp
        F  == FTip(s, phi) (.) FHub(s, phi)
        k  == (solidity (.) cn) (/) (R4 (.) F (.) sp (.) sp)
        kp == (solidity (.) ct) (/) (R4 (.) F (.) sp (.) cp)
        b  == Buhl(k, F)
        region == IF R0 \prec phi
                  THEN IF k \preceq TwoThirds THEN "momentum" ELSE "buhl"
                  ELSE "brake"
        a  == IF region = "momentum" THEN k (/) (R1 (+) k)
              ELSE IF region = "buhl" THEN b.a
              ELSE IF R1 \prec k THEN k (/) (k (-) R1) ELSE R0
        kpw == IF s.wakerotation THEN kp ELSE R0
        ap  == IF s.wakerotation THEN kp (/) (R1 (-) kp) ELSE R0
        t1  == IF region = "brake" THEN sp (.) (R1 (-) k) ELSE sp (/) (R1 (-) a)
        \* rounding of 1 - a when the wind is nearly stopped
        noise == IF region = "brake" THEN R0 ELSE (RLit("1e-15") (.) (R1 (+) RAbs(a)) (.) RAbs(t1)) (/) RAbs(R1 (-) a)
        t2  == (cp (.) (s.Vx (/) s.Vy)) (.) (R1 (-) kpw)
    IN  [a |-> a, ap |-> ap, region |-> region, k |-> k, kp |-> kpw, g3 |-> b.g3, F |-> F,
         res |-> t1 (-) t2, noise |-> noise, scale |-> RAbs(t1) (+) RAbs(cp (.) (s.Vx (/) s.Vy)) (+) RAbs(cp (.) (s.Vx (/) s.Vy) (.) kpw)]

Alpha(s, phi) == phi (-) (s.theta (+) s.pitch)

\* relative velocity; the resultant is replaced by a projection when an induction
\* factor is huge (only met while iterating on the Reynolds number)
RelVel(s, phi, a, ap) ==
    IF R10 \prec RAbs(a) THEN (s.Vy (.) (R1 (+) ap)) (/) RCos(phi)
    ELSE IF R10 \prec RAbs(ap) THEN (s.Vx (.) (R1 (-) a)) (/) RSin(phi)
    ELSE RSqrt(RSq(s.Vx (.) (R1 (-) a)) (+) RSq(s.Vy (.) (R1 (+) ap)))
Resultant(s, a, ap) == RSqrt(RSq(s.Vx (.) (R1 (-) a)) (+) RSq(s.Vy (.) (R1 (+) ap)))
Reyn(s, W) == (s.rho (.) W (.) s.chord) (/) s.mu

\* the model at flow angle phi: iterRe fixed-point steps on the Reynolds number
RECURSIVE Iterate(_, _, _, _, _)
Iterate(s, phi, n, a, ap) ==
    LET Re == TLCEval(Reyn(s, RelVel(s, phi, a, ap)))
        al == Alpha(s, phi)
        cl == TLCEval(AfCl(s.af, al, Re))
        cd == TLCEval(AfCd(s.af, al, Re))
        m  == TLCEval(Momentum(s, phi, cl, cd))
    IN  IF n = 1 THEN [m |-> m, cl |-> cl, cd |-> cd] ELSE Iterate(s, phi, n - 1, m.a, m.ap)
Model(s, phi) == Iterate(s, phi, s.iterRe, R0, R0)
\* with given coefficients (inverse design)
ModelGiven(s, phi, cl, cd) == [m |-> Momentum(s, phi, cl, cd), cl |-> cl, cd |-> cd]

\* sign of the residual, 2 when it is numerically indeterminate, 3 when it is not a number
SureSign(m) == IF ~RIsFinite(m.res) THEN 3
               ELSE IF RAbs(m.res) \preceq RMax(RLit("1e-8") (.) m.scale, R10 (.) m.noise) THEN 2
               ELSE Sgn(m.res)
=============================================================================
