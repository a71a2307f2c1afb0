-------------------------------- MODULE T_Jac --------------------------------
(* Validation of Jacobians against the results the code itself returns for   *)
(* perturbed inputs: p1, p2 at +h, +2h and m1, m2 at -h, -2h.                 *)
EXTENDS TraceChecks, IEEE, Stencil

VARIABLES l
CvEntry == 69  CvRough == 70  CvOff == 71  CvRefused == 72  CvParkedJ == 73  CvCoef == 74  CvAxiJ == 75  CvZero == 76  CvBatchJ == 77  CvInvJ == 78

Fine(x) == RIsFinite(x)
AllFine(s) == \A i \in 1..Len(s) : Fine(s[i])
Central(p, m, h) == (p (-) m) (/) (RInt(2) (.) h)
\* 4th order estimate and the difference of the two 2nd order estimates
Est(p1, p2, m1, m2, h) == LET d1 == Central(p1, m1, h)  d2 == Central(p2, m2, R2 (.) h)
                          IN <<((R4 (.) d1) (-) d2) (/) R3, RAbs(d1 (-) d2)>>
\* J: the returned entry; S: magnitude of the derivatives of this kind; f: magnitude of the function (rounding)
TolJ == RLit("1e-5")
FRound == RLit("5e-9")
\* no jump or kink between the points: second differences of both widths agree
Jumps(f0, at, S, f, h) ==
    LET P(k) == at[k] (-) f0
    IN  ((RLit("1e-5") (.) S (.) h) (+) (FRound (.) f)) \prec RAbs((P(1) (+) P(2)) (-) ((P(3) (+) P(4)) (/) R4))
EntryClause(id, name, ctx, jumps, J, est, S, f, h) ==
    LET s == RMax(S, RAbs(est[1]))
        noise == (FRound (.) f) (/) h
    IN  IF jumps \/ ~Fine(est[1]) \/ ((RLit("3e-4") (.) s) (+) noise) \prec est[2] THEN Cover(CvRough)
        ELSE /\ Cover(CvEntry)
             /\ Check(l, <<id>>, name, ctx, Fine(J) /\ Within(J, est[1], ((TolJ (.) s) (+) (R2 (.) est[2])) (+) noise))

\* ---- section Jacobians (C09) -------------------------------------------------
Outs == <<"Np", "Tp">>
Jac(e, o, name) == e.J[o][name]
\* magnitude of the rounding of the loads of station i. The flow angle is found to 2e-12: the loads are less
\* accurate where the wind is nearly stopped (a close to 1) and the flow angle is tiny.
Rounding(e, i) == LET f == RMax(RAbs(e.L0.Np[i]), RAbs(e.L0.Tp[i]))
                      g == RMax(RAbs(R1 (-) e.L0.a[i]), RLit("1e-12"))
                  IN f (.) RMax(R1, RLit("0.01") (/) g)
IsVector(name) == name \in Diagonal \cup Tridiagonal
\* sections that are compared: converged and not at the corner of the thrust curve (a = 0.4)
Smooth(e, i) == Fine(e.L0.W[i]) /\ ~Within(e.L0.a[i], RLit("0.4"), RLit("0.006"))
SecJacClauses(e) ==
    LET n == e.n
        f == [i \in 1..n |-> RMax(RAbs(e.L0.Np[i]), RAbs(e.L0.Tp[i]))]
        g == [i \in 1..n |-> Rounding(e, i)]
        ok == e.err = "" /\ e.err0 = ""
        shaped == \A k \in 1..Len(e.keys) : \A o \in {"Np", "Tp"} :
                     e.shape[o][e.keys[k]] = (IF IsVector(e.keys[k]) THEN <<n, n>> ELSE <<n, 1>>)
    IN  /\ ~e.parked \/ Cover(CvParkedJ)
        /\ Check(l, <<9, 11>>, "analyses with and without derivatives return", <<e.err, e.err0>>, ok)
        /\ ~ok \/
           /\ \A x \in DOMAIN e.L0 : \A i \in 1..n :
                Check(l, <<11>>, "derivatives do not change the section loads", x, CloseTo(e.L1[x][i], e.L0[x][i], f[i], RLit("1e-11")))
           /\ Check(l, <<11>>, "no Jacobians unless requested", 0, e.off = 0)
           /\ Check(l, <<9>>, "every documented Jacobian is returned", 0,
                \A o \in {"Np", "Tp"} : DOMAIN e.J[o] = Diagonal \cup Tridiagonal \cup Scalars)
           /\ Check(l, <<9>>, "shapes of the Jacobians", e.shape, shaped)
           /\ ~shaped \/
              /\ \A o \in {"Np", "Tp"} : \A name \in Diagonal \cup Tridiagonal : \A i \in 1..n : ~Smooth(e, i) \/ \A j \in 1..n :
                    Depends(n, name, i, j) \/ Check(l, <<9>>, "loads do not depend on other stations", <<o, name, i, j>>, REq(e.J[o][name][(i - 1) * n + j], R0))
              /\ \A k \in 1..Len(e.fd) :
                 LET q == e.fd[k]
                     h == q.h
                 IN \A o \in {"Np", "Tp"} : \A i \in 1..n :
                    LET J == IF IsVector(q.name) THEN e.J[o][q.name][(i - 1) * n + q.j] ELSE e.J[o][q.name][i]
                        S == RMaxAbs(IF IsVector(q.name) THEN [x \in 1..n |-> e.J[o][q.name][(i - 1) * n + x]] ELSE <<J>>)
                    IN  ~Smooth(e, i) \/ ~(Fine(q.p1.W[i]) /\ Fine(q.p2.W[i]) /\ Fine(q.m1.W[i]) /\ Fine(q.m2.W[i])) \/
                        EntryClause(9, q.name, <<o, i, q.j>>, Jumps(e.L0[o][i], <<q.p1[o][i], q.m1[o][i], q.p2[o][i], q.m2[o][i]>>, S, g[i], h), J, Est(q.p1[o][i], q.p2[o][i], q.m1[o][i], q.m2[o][i], h), S, g[i], h)

\* ---- rotor Jacobians (C10) ----------------------------------------------------
Dim == <<"P", "T", "Y", "Z", "Q", "My", "Mz", "Mb">>
Coef == <<"CP", "CT", "CY", "CZ", "CQ", "CMy", "CMz", "CMb">>
RotorScalars == {"dprecone", "dtilt", "dhubHt", "dRhub", "dRtip", "dprecurveTip", "dpresweepTip", "dyaw", "dshear"}
Conditions == {"dUinf", "dOmega", "dpitch"}
RotorVectors == {"dr", "dchord", "dtheta", "dprecurve", "dpresweep"}
AllRotor == RotorScalars \cup Conditions \cup RotorVectors
RotShape(np, n, name) == IF name \in RotorScalars THEN <<np, 1>> ELSE IF name \in Conditions THEN <<np, np>> ELSE <<np, n>>
\* magnitude of the quantities of the kind of output k (forces, moments, power)
Mag(o, j, k) == IF k = 1 THEN RMax(RAbs(o.P[j]), RAbs(o.P[j])) ELSE IF k <= 4 THEN RMaxAbs(<<o.T[j], o.Y[j], o.Z[j]>>)
                ELSE RMaxAbs(<<o.Q[j], o.My[j], o.Mz[j], R3 (.) o.Mb[j]>>)
MagC(o, j, k) == IF k = 1 THEN RAbs(o.CP[j]) ELSE IF k <= 4 THEN RMaxAbs(<<o.CT[j], o.CY[j], o.CZ[j]>>)
                ELSE RMaxAbs(<<o.CQ[j], o.CMy[j], o.CMz[j], R3 (.) o.CMb[j]>>)
RotJacClauses(e) ==
    LET n == e.n  np == e.np
        names == IF e.coef THEN Dim \o Coef ELSE Dim
        ok == e.err = "" /\ e.err0 = ""
        Nm(k) == names[k]
        shaped == \A k \in 1..Len(names) : \A x \in AllRotor : x \in DOMAIN e.J[Nm(k)] /\ e.shape[Nm(k)][x] = RotShape(np, n, x)
        M(j, k) == IF k <= 8 THEN Mag(e.o0, j, k) ELSE MagC(e.o0, j, k - 8)
        Ok(j) == \A i \in 1..Len(e.W[j]) : Fine(e.W[j][i]) /\ ~Within(e.a[j][i], RLit("0.4"), RLit("0.006"))
    IN  /\ ~e.parked \/ Cover(CvParkedJ)
        /\ ~e.coef \/ Cover(CvCoef)
        /\ ~e.axi \/ Cover(CvAxiJ)
        /\ np = 1 \/ Cover(CvBatchJ)
        /\ Check(l, <<10, 11>>, "analyses with and without derivatives return", <<e.err, e.err0>>, ok)
        /\ ~ok \/
           /\ \A k \in 1..Len(names) : \A j \in 1..np :
                ~Ok(j) \/ Check(l, <<11>>, "derivatives do not change the rotor outputs", Nm(k), CloseTo(e.o1[Nm(k)][j], e.o0[Nm(k)][j], M(j, k), RLit("1e-11")))
           /\ Check(l, <<11>>, "no Jacobians unless requested", 0, e.off = 0)
           /\ Check(l, <<10>>, "shapes of the Jacobians", 0, shaped)
           /\ ~shaped \/
              /\ \A k \in 1..Len(names) : \A x \in Conditions : \A i \in 1..np : \A j \in 1..np :
                   i = j \/ Check(l, <<10>>, "conditions do not depend on each other", <<Nm(k), x>>, REq(e.J[Nm(k)][x][(i - 1) * np + j], R0))
              /\ \A q \in {e.fd[z] : z \in 1..Len(e.fd)} : \A k \in 1..Len(names) : \A j \in 1..np :
                   LET o == Nm(k)
                       x == q.name
                       w == IF x \in RotorScalars THEN 1 ELSE IF x \in Conditions THEN np ELSE n
                       \* a perturbation of a condition perturbs every element of the batch
                       col == IF x \in RotorScalars THEN 1 ELSE IF x \in Conditions THEN j ELSE q.j
                       J == e.J[o][x][(j - 1) * w + col]
                       S == IF x \in RotorVectors THEN RMaxAbs([z \in 1..n |-> e.J[o][x][(j - 1) * n + z]]) ELSE RAbs(J)
                       est == Est(q.p1[o][j], q.p2[o][j], q.m1[o][j], q.m2[o][j], q.h)
                       \* listed finding: only the single azimuth of an axisymmetric rotor is differentiated
                       az0 == e.axi /\ x \in {"dtilt", "dyaw", "dshear"}
                       rough == ~Fine(est[1]) \/ ((RLit("3e-4") (.) RMax(S, RAbs(est[1]))) (+) ((FRound (.) M(j, k)) (/) q.h)) \prec est[2]
                       jumps == Jumps(e.o0[o][j], <<q.p1[o][j], q.m1[o][j], q.p2[o][j], q.m2[o][j]>>, RMax(S, RAbs(est[1])), M(j, k), q.h)
                       good == Fine(J) /\ Within(J, est[1], (TolJ (.) RMax(S, RAbs(est[1]))) (+) (R2 (.) est[2]) (+) ((FRound (.) M(j, k)) (/) q.h))
                       B == RInt(e.B)
                       One(y) == IF o \in {"Y", "Z", "My", "Mz", "CY", "CZ", "CMy", "CMz"} THEN R0 ELSE q.az0[y][o][j]
                       est1 == Est(One(1), One(2), One(3), One(4), q.h)
                       single == Fine(J) /\ Within(J, est1[1], (TolJ (.) RMax(S, RAbs(est1[1]))) (+) (R2 (.) est1[2]) (+) ((FRound (.) M(j, k)) (/) q.h))
                       \* the single azimuth is not smooth either: cannot be told from the listed finding
                       rough1 == ~Fine(est1[1]) \/ ((RLit("3e-4") (.) RMax(S, RAbs(est1[1]))) (+) ((FRound (.) M(j, k)) (/) q.h)) \prec est1[2]
                   IN  IF ~Ok(j) \/ (e.parked /\ x = "dOmega") THEN TRUE
                       ELSE IF az0 /\ ~(rough \/ jumps) /\ ~good /\ rough1 THEN Cover(CvRough)
                       ELSE IF az0 /\ ~(rough \/ jumps) /\ ~good /\ single
                            THEN Known(l, 10, "axisymmetric-sectors", "derivatives of an axisymmetric rotor with respect to tilt, yaw and shear are those of azimuth 0")
                       ELSE /\ (IF REq(e.o0[o][j], R0) THEN Cover(CvZero) ELSE TRUE)
                            /\ EntryClause(10, x, <<o, j, q.j>>, jumps, J, est, S, M(j, k), q.h)

\* ---- inverse mode -----------------------------------------------------------------
\* Loads of given airfoil coefficients, for which the twist is found. The Jacobians returned are those of the
\* direct analysis with the twist held fixed (listed finding); a refusal would be right as well.
InvJacClauses(e) ==
    LET n == e.n
        f == [i \in 1..n |-> RMax(RAbs(e.L0.Np[i]), RAbs(e.L0.Tp[i]))]
        shaped == \A o \in {"Np", "Tp"} : \A x \in Diagonal \cup Tridiagonal \cup Scalars :
                     x \in DOMAIN e.J[o] /\ e.shape[o][x] = (IF IsVector(x) THEN <<n, n>> ELSE <<n, 1>>)
    IN  /\ Cover(CvInvJ)
        /\ Check(l, <<9>>, "inverse analyses return", e.err0, e.err0 = "")
        /\ e.err # "" \/ e.err0 # "" \/
           /\ \A x \in DOMAIN e.L0 : \A i \in 1..n :
                Check(l, <<9>>, "derivatives do not change the loads of an inverse analysis", x, CloseTo(e.L1[x][i], e.L0[x][i], f[i], RLit("1e-11")))
           /\ Check(l, <<9>>, "shapes of the Jacobians", e.shape, shaped)
           /\ ~shaped \/ \A k \in 1..Len(e.fd) :
                 LET q == e.fd[k]
                 IN \A o \in {"Np", "Tp"} : \A i \in 1..n :
                    LET at == IF IsVector(q.name) THEN (i - 1) * n + q.j ELSE i
                        J == e.J[o][q.name][at]
                        D == e.D[o][q.name][at]
                        est == Est(q.p1[o][i], q.p2[o][i], q.m1[o][i], q.m2[o][i], q.h)
                        S == RMaxAbs(<<J, est[1]>>)
                        noise == (FRound (.) Rounding(e, i)) (/) q.h
                        rough == ~Fine(est[1]) \/ ((RLit("3e-4") (.) S) (+) noise) \prec est[2]
                        jumps == Jumps(e.L0[o][i], <<q.p1[o][i], q.m1[o][i], q.p2[o][i], q.m2[o][i]>>, S, Rounding(e, i), q.h)
                        good == Fine(J) /\ Within(J, est[1], ((TolJ (.) S) (+) (R2 (.) est[2])) (+) noise)
                        \* the direct analysis may have several solutions
                        other == ~CloseTo(e.LD.Np[i], e.L0.Np[i], f[i], RLit("1e-6"))
                        fixed == Fine(J) /\ Within(J, D, (RLit("1e-7") (.) RMaxAbs(<<J, D>>)) (+) noise)
                    IN  IF ~Smooth(e, i) \/ rough \/ jumps \/ other \/ ~(Fine(q.p1.W[i]) /\ Fine(q.p2.W[i]) /\ Fine(q.m1.W[i]) /\ Fine(q.m2.W[i])) THEN TRUE
                        ELSE IF ~good /\ fixed
                             THEN Known(l, 9, "inverse-derivatives", "Jacobians in inverse mode hold the twist instead of the angle of attack fixed")
                             ELSE Check(l, <<9>>, "Jacobians in inverse mode", <<o, q.name, i, q.j>>, good)

\* ---- unsupported configurations (C11) --------------------------------------------
RefuseClauses(e) ==
    /\ Cover(CvRefused)
    /\ Check(l, <<11>>, "derivatives with more than one Reynolds iteration are refused", e.what, e.err # "")
    /\ Check(l, <<11>>, "the same configuration is analysed without derivatives", e.what, e.err0 = "")
\* more Reynolds iterations make no difference to a parked rotor: derivatives are supported

Init == l = 1 /\ InitCounters
SecJac == Trace[l].op = "SecJac" /\ SecJacClauses(Trace[l]) = TRUE
RotJac == Trace[l].op = "RotJac" /\ RotJacClauses(Trace[l]) = TRUE
InvJac == Trace[l].op = "InvJac" /\ InvJacClauses(Trace[l]) = TRUE
Refuse == Trace[l].op = "Refuse" /\ RefuseClauses(Trace[l]) = TRUE
End == Trace[l].op = "End"
Next == l <= Len(Trace) /\ l' = l + 1 /\ (SecJac \/ RotJac \/ InvJac \/ Refuse \/ End)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
