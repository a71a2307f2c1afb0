------------------------------- MODULE T_Comp -------------------------------
(* Validation of recorded histories of OpenMDAO components next to the rotor  *)
(* analysis with the same inputs. State: kind and inputs (by version) of the  *)
(* components, and what each answered for a version before.                   *)
EXTENDS TraceChecks, Polars

VARIABLES l, memo

CvAgain == 101  CvFlip == 102  CvCap == 103  CvStall == 104  CvSmooth == 105  CvRoot == 106  CvRefused == 107  CvGiven == 108  CvPartials == 109

Id(kind) == IF kind \in {"geometry", "loads"} THEN 24 ELSE IF kind = "evaluate" THEN 25 ELSE 26
SameSeq(a, b) == Len(a) = Len(b) /\ LET s == RMaxAbs(b) IN \A i \in 1..Len(a) : Close(a[i], b[i], s)
Neg(s) == [i \in 1..Len(s) |-> RNeg(s[i])]
Zeros(n) == [i \in 1..n |-> R0]
IsZero(s) == \A i \in 1..Len(s) : REq(s[i], R0)

\* ---- geometry ------------------------------------------------------------------------------
GeoOut(x) == LET n == Len(x.precurve_in)
                 c == Rad(x.precone[1])
                 R == (x.Rtip[1] (.) RCos(c)) (+) (x.precurve_in[n] (.) RSin(c))
             IN  [R |-> <<R>>, diameter |-> <<R2 (.) R>>, precurveTip |-> <<x.precurve_in[n]>>, presweepTip |-> <<x.presweep_in[n]>>]
AtEnd(n, v) == [i \in 1..n |-> IF i = n THEN v ELSE R0]
GeoJac(x) == LET n == Len(x.precurve_in)
                 c == Rad(x.precone[1])
                 dR == [Rtip |-> <<RCos(c)>>, precurve_in |-> AtEnd(n, RSin(c)), presweep_in |-> Zeros(n),
                        precone |-> <<((x.precurve_in[n] (.) RCos(c)) (-) (x.Rtip[1] (.) RSin(c))) (.) RDeg>>]
                 Z == [Rtip |-> <<R0>>, precone |-> <<R0>>, precurve_in |-> Zeros(n), presweep_in |-> Zeros(n)]
             IN  [R |-> dR, diameter |-> [i \in DOMAIN dR |-> [k \in 1..Len(dR[i]) |-> R2 (.) dR[i][k]]],
                  precurveTip |-> [Z EXCEPT !.precurve_in = AtEnd(n, R1)], presweepTip |-> [Z EXCEPT !.presweep_in = AtEnd(n, R1)]]
\* a derivative that cancels to nothing is judged on the scale of its terms
GeoScale(x) == RMax(RMaxAbs(x.Rtip), RMaxAbs(x.precurve_in)) (+) R1

\* ---- section loads -------------------------------------------------------------------------
LoadOut(r, x) == [loads_r |-> x.r, loads_Px |-> r.Np, loads_Py |-> Neg(r.Tp), loads_Pz |-> Zeros(Len(r.Np))]
LoadJac(D, i, n) == [loads_Px |-> D.dNp[i], loads_Py |-> Neg(D.dTp[i]), loads_Pz |-> Zeros(Len(D.dNp[i])),
                     loads_r |-> IF i = "r" THEN [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN R1 ELSE R0] ELSE Zeros(Len(D.dNp[i]))]
\* ---- rotor evaluation ----------------------------------------------------------------------
EvalOut(r) == [P |-> r.P, Mb |-> r.Mb, Fhub |-> r.T \o r.Y \o r.Z, Mhub |-> r.Q \o r.My \o r.Mz,
               CP |-> r.CP, CMb |-> r.CMb, CFhub |-> r.CT \o r.CY \o r.CZ, CMhub |-> r.CQ \o r.CMy \o r.CMz]
EvalJac(D, i) == [P |-> D.dP[i], Mb |-> D.dMb[i], Fhub |-> D.dT[i] \o D.dY[i] \o D.dZ[i], Mhub |-> D.dQ[i] \o D.dMy[i] \o D.dMz[i],
                  CP |-> D.dCP[i], CMb |-> D.dCMb[i], CFhub |-> D.dCT[i] \o D.dCY[i] \o D.dCZ[i], CMhub |-> D.dCQ[i] \o D.dCMy[i] \o D.dCMz[i]]

\* values are exchanged in the units of OUNITS and UNITS of the driver; an output that has no value in them (a force declared as a moment) is an error
\* ---- twist ---------------------------------------------------------------------------------
\* requested angle of attack: as given, or the margin below stall where pi stands for "not given"; the thick root takes that of the first thinner station
First95(t) == CHOOSE i \in 1..Len(t) : t[i] \prec RInt(95) /\ \A j \in 1..(i - 1) : ~(t[j] \prec RInt(95))
Own(x, m, stall, i) == IF RAbs(x.aoa_op[i] (-) RPi) \prec RLit("1e-4") THEN Rad(stall[i]) (-) m ELSE x.aoa_op[i]
Schedule(x, m, stall) == LET k == First95(x.rthick) IN [i \in 1..Len(stall) |-> Own(x, m, stall, IF i < k THEN k ELSE i)]
\* no station inside of one beyond 20 degrees is left above or below it
Cap == Rad(RInt(20))
Capped(th) == [i \in 1..Len(th) |-> IF \E j \in i..Len(th) : Cap \prec th[j] THEN Cap ELSE th[i]]
\* monotone piecewise cubic (Fritsch-Carlson) through the points, end cubics continued outside
Slopes(x, y) ==
    LET n == Len(x)
        h == Vec([i \in 1..(n - 1) |-> x[i + 1] (-) x[i]])
        m == Vec([i \in 1..(n - 1) |-> (y[i + 1] (-) y[i]) (/) h[i]])
        e(h0, h1, m0, m1) == LET d == ((((R2 (.) h0) (+) h1) (.) m0) (-) (h0 (.) m1)) (/) (h0 (+) h1)
                             IN IF Sgn(d) # Sgn(m0) THEN R0 ELSE IF Sgn(m0) # Sgn(m1) /\ (R3 (.) RAbs(m0)) \prec RAbs(d) THEN R3 (.) m0 ELSE d
        in(i) == IF Sgn(m[i - 1]) # Sgn(m[i]) \/ Sgn(m[i]) = 0 THEN R0
                 ELSE LET w1 == (R2 (.) h[i]) (+) h[i - 1]
                          w2 == h[i] (+) (R2 (.) h[i - 1])
                      IN (w1 (+) w2) (/) ((w1 (/) m[i - 1]) (+) (w2 (/) m[i]))
    IN  Vec([i \in 1..n |-> IF i = 1 THEN e(h[1], h[2], m[1], m[2]) ELSE IF i = n THEN e(h[n - 1], h[n - 2], m[n - 1], m[n - 2]) ELSE in(i)])
PchipAt(x, y, d, s) ==
    LET n == Len(x)
        j == IF s \prec x[1] THEN 1 ELSE IF x[n] \preceq s THEN n - 1 ELSE LocBS(s, x, 1, n)
        h == x[j + 1] (-) x[j]
        t == (s (-) x[j]) (/) h
        u == R1 (-) t
    IN  (((R1 (+) (R2 (.) t)) (.) RSq(u)) (.) y[j]) (+) (((t (.) RSq(u)) (.) h) (.) d[j])
        (+) (((RSq(t) (.) (R3 (-) (R2 (.) t))) (.) y[j + 1]) (-) (((RSq(t) (.) u) (.) h) (.) d[j + 1]))
Pchip(x, y, ss) == LET d == Slopes(x, y) IN Vec([k \in 1..Len(ss) |-> PchipAt(x, y, d, ss[k])])
Span(r) == Vec([i \in 1..Len(r) |-> (r[i] (-) r[1]) (/) (r[Len(r)] (-) r[1])])
Smoothed(x, th) == LET s == Span(x.r) IN Pchip(x.s_opt_theta, Pchip(s, th, x.s_opt_theta), s)
Twist(e) == IF ~e.inv THEN e.x.theta_in ELSE LET c == Vec(Capped(e.dsg.theta0)) IN IF e.inn THEN Smoothed(e.x, c) ELSE c
\* blade loads turned by an angle about the span axis
Turn(r, ang) == [x |-> Vec([i \in 1..Len(r.Np) |-> (r.Np[i] (.) RCos(ang[i])) (+) (r.Tp[i] (.) RSin(ang[i]))]),
                 y |-> Vec([i \in 1..Len(r.Np) |-> (r.Np[i] (.) RSin(ang[i])) (-) (r.Tp[i] (.) RCos(ang[i]))])]
At(x, v) == LET s == Span(x.r) IN [k \in 1..Len(x.s_opt_theta) |-> Interp(x.s_opt_theta[k], s, v)]
TwistOut(e) ==
    LET r == e.r
        x == e.x
        th == e.o.theta
        af == Turn(r, th)
        ld == Turn(r, [i \in 1..Len(th) |-> th[i] (+) (Rad(r.alpha[i]) (+) Rad(x.pitch[1]))])
    IN  [CP |-> r.CP, CM |-> r.CMb, P |-> r.P, T |-> r.T, Q |-> r.Q, M |-> r.Mb,
         local_airfoil_velocities |-> [i \in 1..Len(r.Wrot) |-> IF RIsNaN(r.Wrot[i]) THEN R0 ELSE r.Wrot[i]],
         a |-> r.a, ap |-> r.ap, alpha |-> r.alpha, cl |-> r.Cl, cd |-> r.Cd, cl_n_opt |-> At(x, r.Cl), cd_n_opt |-> At(x, r.Cd),
         Px_b |-> r.Np, Py_b |-> Neg(r.Tp), Pz_b |-> Zeros(Len(r.Np)), Px_af |-> af.x, Py_af |-> af.y, Pz_af |-> Zeros(Len(r.Np)),
         LiftF |-> ld.x, DragF |-> ld.y, L_n_opt |-> At(x, ld.x), D_n_opt |-> At(x, ld.y)]
\* rotations lose digits relative to the whole load
Mag(r) == RMax(RMaxAbs(r.Np), RMaxAbs(r.Tp))
Turned == {"Px_af", "Py_af", "Pz_af", "LiftF", "DragF", "L_n_opt", "D_n_opt"}
SameTwist(q, a, b, r) == IF q \notin Turned THEN SameSeq(a, b) ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : CloseTo(a[i], b[i], Mag(r), Eps(9))
\* lift and drag are those of the coefficients and the relative wind of the station
Dynamic(e, q, c) == \A i \in 1..Len(e.o[q]) :
    LET f == ((RHalf (.) e.x.rho[1]) (.) RSq(e.r.W[i])) (.) e.x.chord[i]
    \* a section without a solution carries no load and has no velocity
    IN  IF ~RIsFinite(e.r.W[i]) THEN REq(e.r.Np[i], R0) /\ REq(e.r.Tp[i], R0) => REq(e.o[q][i], R0)
        ELSE CloseTo(e.o[q][i], f (.) c[i], f (.) RMax(RAbs(e.r.Cl[i]), RAbs(e.r.Cd[i])), Eps(6))
TwistClauses(e) ==
    /\ Check(l, <<26>>, "twist design and optimisation together are refused", e.err, ~e.both \/ e.err # "")
    /\ (IF e.both THEN Cover(CvRefused) ELSE TRUE)
    /\ e.both \/
       /\ Check(l, <<26>>, "twist component returns", <<e.err, e.rerr>>, (e.err = "") = (e.rerr = ""))
       /\ e.err # "" \/ e.rerr # "" \/
          /\ ~e.inv \/ /\ Check(l, <<26>>, "schedule of the harness", 0, SameSeq(e.dsg.alpha, Schedule(e.x, e.margin, e.dsg.stall)))
                       /\ (IF \E i \in 1..Len(e.dsg.theta0) : Cap \prec e.dsg.theta0[i] THEN Cover(CvCap) ELSE TRUE)
                       /\ (IF \E i \in 1..Len(e.x.aoa_op) : RAbs(e.x.aoa_op[i] (-) RPi) \prec RLit("1e-4") THEN Cover(CvStall) ELSE TRUE)
                       /\ (IF e.inn THEN Cover(CvSmooth) ELSE TRUE)
                       /\ (IF e.dsg.k > 1 THEN Cover(CvRoot) ELSE TRUE)
          /\ (IF e.inv THEN TRUE ELSE Cover(CvGiven))
          /\ Check(l, <<26>>, "twist", <<e.inv, e.inn>>, SameSeq(e.o.theta, Twist(e)))
          /\ ~Has(e, "r") \/
             LET w == TLCEval(TwistOut(e)) IN
             /\ \A q \in DOMAIN w : Check(l, <<26>>, "reported for the rotor with that twist", q, SameTwist(q, e.o[q], w[q], e.r))
             /\ Check(l, <<26>>, "lift force of the coefficients", 0, Dynamic(e, "LiftF", e.r.Cl))
             /\ Check(l, <<26>>, "drag force of the coefficients", 0, Dynamic(e, "DragF", e.r.Cd))

\* ---- actions -------------------------------------------------------------------------------
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ memo = <<>> /\ InitCounters
Start == Trace[l].op = "Start" /\ memo' = <<>>
New == /\ Trace[l].op = "New"
       /\ Check(l, <<Id(Trace[l].kind)>>, "component is set up", Trace[l].err, Trace[l].err = "") = TRUE
       /\ UNCHANGED memo
OutClauses(e, w) == \A q \in DOMAIN w : Check(l, <<Id(e.kind)>>, "output", <<e.kind, q>>, SameSeq(e.o[q], w[q]))
RunClauses(e) ==
    /\ Check(l, <<Id(e.kind)>>, "the inputs are left alone", e.kind, e.same)
    /\ e.err # "" \/ <<e.id, e.ver>> \notin DOMAIN memo \/
         (Cover(CvAgain) /\ \A q \in DOMAIN e.o : Check(l, <<Id(e.kind)>>, "same inputs, same outputs", <<e.kind, q>>, SameSeq(e.o[q], memo[<<e.id, e.ver>>][q])))
    /\ (IF e.err = "" /\ (\E k \in DOMAIN memo : k[1] = e.id /\ k[2] # e.ver) THEN Cover(CvFlip) ELSE TRUE)
    /\ IF e.kind = "twist" THEN TwistClauses(e)
       ELSE /\ Check(l, <<Id(e.kind)>>, "component returns", <<e.err, e.rerr>>, (e.err = "") = (e.rerr = ""))
            /\ e.err # "" \/ e.rerr # "" \/
               OutClauses(e, IF e.kind = "geometry" THEN GeoOut(e.x) ELSE IF e.kind = "loads" THEN LoadOut(e.r, e.x) ELSE EvalOut(e.r))
Run == /\ Trace[l].op = "Run"
       /\ RunClauses(Trace[l]) = TRUE
       /\ memo' = IF Trace[l].err = "" THEN Put(memo, <<Trace[l].id, Trace[l].ver>>, Trace[l].o) ELSE memo
DiffClauses(e) ==
    /\ Check(l, <<Id(e.kind)>>, "derivatives return", e.err, e.err = "")
    /\ e.err # "" \/
       IF e.kind = "geometry"
       THEN LET w == GeoJac(e.x) IN
            \A q \in DOMAIN w : \A i \in DOMAIN w[q] :
              Check(l, <<24>>, "derivative", <<q, i>>, Len(e.J[q][i]) = Len(w[q][i]) /\ \A k \in 1..Len(w[q][i]) : CloseTo(e.J[q][i][k], w[q][i][k], GeoScale(e.x), Eps(12)))
       ELSE e.rerr # "" \/
            \A i \in DOMAIN e.D[CHOOSE q \in DOMAIN e.D : TRUE] :
              LET w == IF e.kind = "loads" THEN LoadJac(e.D, i, e.n) ELSE EvalJac(e.D, i)
              IN  \A q \in DOMAIN w : Cover(CvPartials) /\ Check(l, <<Id(e.kind)>>, "derivative", <<q, i>>, SameSeq(e.J[q][i], w[q]))
Diff == Trace[l].op = "Diff" /\ DiffClauses(Trace[l]) = TRUE /\ UNCHANGED memo
End == Trace[l].op = "End" /\ UNCHANGED memo
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Start \/ New \/ Run \/ Diff \/ End)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
