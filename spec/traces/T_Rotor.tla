------------------------------ MODULE T_Rotor ------------------------------
(* Validation of recorded rotor analyses: New, Section, Evaluate, Inverse.   *)
(* State: for every rotor the configuration and what follows from it.        *)
EXTENDS TraceChecks, BEM, Integration, Solver

VARIABLES l,      \* next line of the trace
          rot     \* rotors constructed so far: id -> [c, g, fb]

E9 == RLit("1e-9")  E10 == RLit("1e-10")  E12 == RLit("1e-12")  E8 == RLit("1e-8")  E6 == RLit("1e-6")
TinyPhi == RLit("2e-14")
RootStep == RLit("1e-9")
Hour == RInt(90)
LoadNames == <<"Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re">>

\* coverage registers
CvStd == 41  CvBrake == 42  CvProp == 43  CvNone == 44  CvUnsure == 45
CvMom == 46  CvBuhl == 47  CvBuhlSing == 48  CvBrakeReg == 49  CvParked == 50
CvHubN == 51  CvTipN == 52  CvAxi == 53  CvSect4 == 54  CvSectN == 55  CvIter2 == 56 CvNull == 57 CvBigA == 58 CvTable == 59
CvScaled == 60  CvInv == 61  CvInvMatch == 62

Sec(R, e, i, V) ==
    LET c == R.c IN
    [r |-> R.g.r[i], chord |-> c.chord[i], theta |-> Rad(c.theta[i]), pitch |-> Rad(e.pitch), af |-> c.af[i],
     Vx |-> V[i][1], Vy |-> V[i][2], Rhub |-> c.Rhub, Rtip |-> c.Rtip, B |-> RInt(c.B), rho |-> c.rho, mu |-> c.mu,
     tiploss |-> c.tiploss, hubloss |-> c.hubloss, wakerotation |-> c.wakerotation, usecd |-> c.usecd, iterRe |-> c.iterRe]

FiniteLoads(L, i) == \A k \in 1..Len(LoadNames) : RIsFinite(L[LoadNames[k]][i])
RootSign(m) == IF ~RIsFinite(m.res) THEN 3 ELSE IF RAbs(m.res) \preceq RMax(E12 (.) m.scale, m.noise) THEN 0 ELSE Sgn(m.res)

\* ---- loads from coefficients and velocity (C03), any section ---------------
LoadClauses(R, e, i, s, phi, big) ==
    LET L == e.L
        sp == RSin(phi)  cp == RCos(phi)
        cl == L.Cl[i]  cd == L.Cd[i]  W == L.W[i]
        cs == RAbs(cl) (+) RAbs(cd)
        q == RHalf (.) s.rho (.) W (.) W (.) s.chord
        res == Resultant(s, L.a[i], L.ap[i])
    IN  /\ Check(l, <<3, 29>>, "normal coefficient", i, Close(L.Cn[i], (cl (.) cp) (+) (cd (.) sp), cs))
        /\ Check(l, <<3>>, "tangential coefficient", i, Close(L.Ct[i], (cl (.) sp) (-) (cd (.) cp), cs))
        /\ Check(l, <<3>>, "normal load", i, Close(L.Np[i], q (.) L.Cn[i], R0))
        /\ Check(l, <<3>>, "tangential load", i, Close(L.Tp[i], q (.) L.Ct[i], R0))
        /\ Check(l, <<3, 29>>, "relative velocity", i, CloseTo(RAbs(W), res, R0, IF big THEN E6 ELSE E9)
              \* with huge induction the resultant amplifies the last bits of the flow angle: either component, over its share, will do
              \/ (big /\ (CloseTo(RAbs(W), RAbs((s.Vx (.) (R1 (-) L.a[i])) (/) sp), R0, E6) \/ CloseTo(RAbs(W), RAbs((s.Vy (.) (R1 (+) L.ap[i])) (/) cp), R0, E6))))
        /\ Check(l, <<3>>, "Reynolds number", i, Close(L.Re[i], Reyn(s, W), R0))

\* ---- a section of a parked rotor (C12) --------------------------------------
ParkedClauses(R, e, i, s) ==
    LET L == e.L
        W == RSqrt(RSq(s.Vx) (+) RSq(s.Vy))
        phi == Rad(L.alpha[i]) (+) s.theta (+) s.pitch
        al == Alpha(s, RPi (/) R2)
        Re == Reyn(s, W)
    IN  /\ Cover(CvParked)
        /\ Check(l, <<12, 29>>, "parked loads are finite", i, FiniteLoads(L, i))
        /\ Check(l, <<12>>, "parked: no induction", i, REq(L.a[i], R0) /\ REq(L.ap[i], R0))
        /\ Check(l, <<12, 3>>, "parked: angle of attack", i, Within(L.alpha[i], Deg(al), E9))
        /\ Check(l, <<12, 3, 4, 29>>, "parked: undisturbed wind", i, Close(L.W[i], W, RAbs(e.U)))
        /\ s.af.kind = "table" \/ Check(l, <<12, 3>>, "parked: lift and drag at the angle of attack", i,
              LET t == Rad(L.alpha[i]) IN Close(L.Cl[i], AfCl(s.af, t, Re), R1) /\ Close(L.Cd[i], AfCd(s.af, t, Re), R1))
        /\ s.af.kind # "table" \/ Check(l, <<12, 3>>, "parked: table lift and drag", i, Close(L.Cl[i], e.q[i][3], R1) /\ Close(L.Cd[i], e.q[i][4], R1))
        /\ Check(l, <<12>>, "parked: normal load", i,
              Close(L.Np[i], RHalf (.) s.rho (.) W (.) W (.) s.chord (.) L.Cd[i], RHalf (.) s.rho (.) W (.) W (.) s.chord (.) RAbs(L.Cl[i])))
        /\ Check(l, <<12>>, "parked: tangential load", i,
              Close(L.Tp[i], RHalf (.) s.rho (.) W (.) W (.) s.chord (.) L.Cl[i], RHalf (.) s.rho (.) W (.) W (.) s.chord (.) RAbs(L.Cd[i])))
        /\ LoadClauses(R, e, i, s, phi, FALSE)

\* ---- a section of a rotating rotor -------------------------------------------
\* M(phi): the model at phi;  root(phi): is phi a root
RegionCover(m) ==
    /\ Cover(IF m.region = "momentum" THEN CvMom ELSE IF m.region = "brake" THEN CvBrakeReg
             ELSE IF RAbs(m.g3) \prec RLit("1e-3") THEN CvBuhlSing ELSE CvBuhl)

InductionClauses(R, e, i, s, phi, x, lo, hi, ids) ==
    \* x: model at phi; lo, hi: models at phi -+ TinyPhi (conditioning)
    LET L == e.L
        m == x.m
        glauert == m.region = "buhl"
        sing == glauert /\ RAbs(m.g3) \prec RLit("2e-6")
        extra == IF sing THEN RLit("2e-6")
                 ELSE IF glauert THEN (RLit("1e-14") (.) (R1 (+) RAbs(m.g3))) (/) RAbs(m.g3) ELSE R0
        tolA == (E9 (.) RMax(R1, RAbs(m.a))) (+) extra (+) (R4 (.) RAbs(hi.m.a (-) lo.m.a))
        tolP == (E9 (.) RMax(R1, RAbs(m.ap))) (+) (R4 (.) RAbs(hi.m.ap (-) lo.m.ap))
    IN  /\ Check(l, ids, "axial induction", i, Within(L.a[i], m.a, tolA))
        /\ Check(l, ids, "tangential induction", i, Within(L.ap[i], m.ap, tolP))

Ends == <<Lim, RPi (/) R2, RNeg(RPi (/) R4), RNeg(Lim), RPi (-) Lim>>
BracketOf(Me(_)) ==         \* Me(k): momentum balance at the k-th interval end
    Interval(SureSign(Me(1)), SureSign(Me(2)), SureSign(Me(3)), SureSign(Me(4)), SureSign(Me(5)))
Bracket(s, Mo(_)) == BracketOf(LAMBDA k : Mo(Ends[k]).m)
InInterval(b, phi) ==
    LET t == E8 IN
    CASE b = "std"   -> (Lim (-) t) \preceq phi /\ phi \preceq ((RPi (/) R2) (+) t)
      [] b = "brake" -> (RNeg(RPi (/) R4) (-) t) \preceq phi /\ phi \preceq (t (-) Lim)
      [] b = "prop"  -> ((RPi (/) R2) (-) t) \preceq phi /\ phi \preceq ((RPi (-) Lim) (+) t)
      [] OTHER -> (RNeg(RPi (/) R4) (-) t) \preceq phi /\ phi \preceq RPi
IsRoot(lo, hi) == LET x == RootSign(lo.m)  y == RootSign(hi.m) IN x # 3 /\ y # 3 /\ x * y <= 0
NearSing(m) == m.region = "buhl" /\ RAbs(m.g3) \prec RLit("1e-5")

\* without lift and drag the wind is undisturbed and its direction is reported
NullClauses(R, e, i, s, phi) ==
    LET W == e.L.W[i]
        x == W (.) RSin(phi)  y == W (.) RCos(phi)
        tol == E10 (.) RMax(RSqrt(RSq(s.Vx) (+) RSq(s.Vy)), E6)
        Same(sg) == Within(sg (.) x, s.Vx, tol) /\ Within(sg (.) y, s.Vy, tol)
    IN  /\ Cover(CvNull)
        /\ Check(l, <<4, 29>>, "inflow components", i, IF R0 \prec s.Vy /\ R0 \prec s.Vx THEN Same(R1) ELSE Same(R1) \/ Same(RNeg(R1)))
        /\ ~Has(e, "cs") \/ Check(l, <<4>>, "inflow by coordinate transformations", i,
              /\ Within(e.cs[i][1], s.Vx, tol) /\ Within(e.cs[i][2], s.Vy, tol))

RotatingClauses(R, e, i, s) ==
    LET L == e.L
        phi == Rad(L.alpha[i]) (+) s.theta (+) s.pitch
        table == s.af.kind = "table"
        \* airfoil tables: coefficients were queried at the angle of attack and 1e-9 rad off it
        Mo(p) == Model(s, p)
        x  == TLCEval(IF table THEN ModelGiven(s, phi, e.q[i][3], e.q[i][4]) ELSE Mo(phi))
        lo == TLCEval(IF table THEN ModelGiven(s, phi (-) RootStep, e.q[i][1], e.q[i][2]) ELSE Mo(phi (-) RootStep))
        hi == TLCEval(IF table THEN ModelGiven(s, phi (+) RootStep, e.q[i][5], e.q[i][6]) ELSE Mo(phi (+) RootStep))
        lt == TLCEval(IF table THEN lo ELSE Mo(phi (-) TinyPhi))
        ht == TLCEval(IF table THEN hi ELSE Mo(phi (+) TinyPhi))
        b  == TLCEval(IF table THEN BracketOf(LAMBDA k : Momentum(s, Ends[k], e.ends[i][2 * k - 1], e.ends[i][2 * k]))
                     ELSE Bracket(s, Mo))
        fin == FiniteLoads(L, i)
        found == fin /\ (b \in {"std", "brake", "prop"} \/ (b = "unsure" /\ InInterval(b, phi) /\ IsRoot(lo, hi)))
        big == R10 \prec RAbs(L.a[i]) \/ R10 \prec RAbs(L.ap[i])
    IN  /\ Cover(CASE b = "std" -> CvStd [] b = "brake" -> CvBrake [] b = "prop" -> CvProp [] b = "none" -> CvNone [] OTHER -> CvUnsure)
        /\ ~table \/ Cover(CvTable)
        /\ s.iterRe = 1 \/ Cover(CvIter2)
        /\ b \notin {"std", "brake", "prop"} \/
             /\ Check(l, <<1, 2, 29>>, "loads are finite", i, fin)
             /\ ~fin \/ Check(l, <<2>>, "flow angle is in the preferred interval", i, InInterval(b, phi))
             /\ ~fin \/ NearSing(x.m) \/ Check(l, <<1, 2, 29>>, "flow angle is a converged root", i, IsRoot(lo, hi))
        /\ b # "none" \/ ~fin \/ Check(l, <<2>>, "no flow angle outside the intervals", i,
              REq(L.alpha[i], R0) \/ Within(phi, R0, E9) \/ InInterval("any", phi))
        /\ ~found \/
             /\ RegionCover(x.m)
             /\ ~big \/ Cover(CvBigA)
             /\ InductionClauses(R, e, i, s, phi, x, lt, ht, <<1, 29>>)
             /\ Check(l, <<1, 3>>, "lift at the angle of attack", i, CloseTo(L.Cl[i], x.cl, R1, E9))
             /\ Check(l, <<1, 3>>, "drag at the angle of attack", i, CloseTo(L.Cd[i], x.cd, R1, E9))
             /\ LoadClauses(R, e, i, s, phi, big)
             /\ ~AfIsNull(s.af) \/ NullClauses(R, e, i, s, phi)

SectionClauses(R, e) ==
    LET n == Len(R.c.r)
        V == TLCEval(Inflow(R.c, R.g, e.U, e.Om (.) RpmToRad, Rad(e.az)))
        ok == e.err = "" /\ \A k \in 1..Len(LoadNames) : Len(e.L[LoadNames[k]]) = n
        known == Has(e, "uinf")
    IN  /\ Check(l, <<1, 2, 3, 4, 12, 29, 7>>, "section analysis returns", e.err, ok)
        /\ ~ok \/ /\ ~HubNudged(R.c) \/ Cover(CvHubN)
                  /\ ~TipNudged(R.c) \/ Cover(CvTipN)
                  /\ \A i \in 1..n :
                      LET s == TLCEval(Sec(R, e, i, V)) IN
                      ~(RIsFinite(s.Vx) /\ RIsFinite(s.Vy)) \/ REq(s.Vx, R0) \/
                      IF REq(e.Om, R0) THEN ParkedClauses(R, e, i, s)
                      ELSE REq(s.Vy, R0) \/ RotatingClauses(R, e, i, s)

\* hub-height wind speed given per station: documented as the speed at each station
ArrayWindClauses(R, e) ==
    LET n == Len(R.c.r)
        V == [i \in 1..n |-> TLCEval(Inflow(R.c, R.g, e.Us[i], e.Om (.) RpmToRad, Rad(e.az)))[i]]
        V1 == Inflow(R.c, R.g, e.Us[1], e.Om (.) RpmToRad, Rad(e.az))
        ok == e.err = "" /\ Len(e.L.W) = n
        Ok(v) == \A i \in 1..n : Close(e.L.W[i], RSqrt(RSq(v[i][1]) (+) RSq(v[i][2])), RAbs(e.Us[i]))
    IN  /\ Check(l, <<4>>, "array wind speed: analysis returns", e.err, ok)
        /\ ~ok \/ IF ~Ok(V) /\ Ok(V1) THEN Known(l, 4, "array-uinf", "distributedAeroLoads(Uinf=array) uses only the first element")
                  ELSE Check(l, <<4>>, "wind speed of each station", 0, Ok(V))

\* ---- rotor integrals ------------------------------------------------------------
DimNames == <<"P", "T", "Y", "Z", "Q", "My", "Mz", "Mb">>
CoefNames == <<"CP", "CT", "CY", "CZ", "CQ", "CMy", "CMz", "CMb">>
EvaluateClauses(R, e) ==
    LET c == R.c
        np == Len(e.U)
        o == e.out
        ok == e.err = "" /\ \A k \in 1..8 : Len(o[DimNames[k]]) = np /\ (~e.coef \/ Len(o[CoefNames[k]]) = np)
        rr == (c.Rtip (.) RCos(Rad(c.precone))) (+) (c.precurveTip (.) RSin(Rad(c.precone)))
        A == RPi (.) RSq(rr)
    IN  /\ Check(l, <<5, 6, 7, 12>>, "rotor analysis returns", e.err, ok)
        /\ Check(l, <<6>>, "coefficients returned exactly when requested", 0, e.err # "" \/ \A k \in 1..8 : (CoefNames[k] \in DOMAIN o) = e.coef)
        \* one azimuth suffices: the airfoils are not asked as often as for several
        /\ ~ok \/ ~Axisymmetric(c) \/ Check(l, <<7>>, "axisymmetric: one azimuth evaluated", <<e.asked, e.one>>, e.asked =< 2 * e.one)
        /\ ~ok \/ \A j \in 1..np :
            LET sj == e.sect[j]
                m == Len(sj)
                axi == Axisymmetric(c)
                ns == Sectors(c)
                fine == \A k \in 1..m : \A i \in 1..Len(c.r) : RIsFinite(sj[k].Np[i]) /\ RIsFinite(sj[k].Tp[i])
                az == [k \in 1..m |-> Rad(sj[k].az)]
                bl == TLCEval([k \in 1..m |-> Blade(R.fb, sj[k].Np, sj[k].Tp)])
                B == RInt(c.B)
                rt == TLCEval(Rotor(bl, az, B))
                om == e.Om[j] (.) RpmToRad
                q == RHalf (.) c.rho (.) RSq(e.U[j])
                F0 == rt.F  M0 == rt.M
                Cls(name, want, sc) == CloseTo(o[name][j], want, sc, E9)
                parked == REq(e.Om[j], R0)
                ids5 == IF parked THEN <<5, 7, 12>> ELSE <<5, 7>>
            IN  ~fine \/
                /\ IF axi THEN
                      /\ Cover(CvAxi)
                      /\ \A k \in 1..m :
                          /\ Check(l, <<7>>, "axisymmetric: loads do not depend on azimuth", sj[k].az,
                               \A i \in 1..Len(c.r) : CloseTo(sj[k].Np[i], sj[1].Np[i], RMaxAbs(sj[1].Np), E8) /\ CloseTo(sj[k].Tp[i], sj[1].Tp[i], RMaxAbs(sj[1].Np), E8))
                      /\ Check(l, ids5, "axisymmetric: thrust of one azimuth", j, Cls("T", B (.) bl[1].T, F0))
                      /\ Check(l, ids5, "axisymmetric: torque of one azimuth", j, Cls("Q", B (.) bl[1].Q, M0))
                      /\ Check(l, ids5, "axisymmetric: root moment of one azimuth", j, Cls("Mb", bl[1].M, M0))
                      /\ Check(l, <<5, 7>>, "axisymmetric: side and vertical resultants vanish", j,
                           Cls("Y", R0, F0) /\ Cls("Z", R0, F0) /\ Cls("My", R0, M0) /\ Cls("Mz", R0, M0))
                   ELSE
                      /\ Cover(IF ns = 4 THEN CvSect4 ELSE CvSectN)
                      /\ Check(l, <<7>>, "recorded sectors", j, m = ns /\ \A k \in 1..m : Within(az[k], (RInt(k - 1) (.) R2 (.) RPi) (/) RInt(ns), E12))
                      /\ Check(l, ids5, "thrust", j, Cls("T", rt.T, F0))
                      /\ Check(l, ids5, "torque", j, Cls("Q", rt.Q, M0))
                      /\ Check(l, ids5, "side force", j, Cls("Y", rt.Y, F0))
                      /\ Check(l, ids5, "vertical force", j, Cls("Z", rt.Z, F0))
                      /\ Check(l, ids5, "y moment", j, Cls("My", rt.My, M0))
                      /\ Check(l, ids5, "z moment", j, Cls("Mz", rt.Mz, M0))
                      /\ Check(l, ids5, "blade root moment", j, Cls("Mb", rt.Mb, M0))
                /\ Check(l, IF parked THEN <<6, 12>> ELSE <<6>>, "power is torque times speed", j, CloseTo(o.P[j], o.Q[j] (.) om, R0, E12))
                /\ ~e.coef \/ REq(e.U[j], R0) \/
                    /\ Check(l, <<6>>, "CP", j, CloseTo(o.CP[j], o.P[j] (/) (q (.) A (.) e.U[j]), R0, E12))
                    /\ \A k \in {2, 3, 4} : Check(l, <<6>>, CoefNames[k], j,
                          CloseTo(o[CoefNames[k]][j], o[DimNames[k]][j] (/) (q (.) A), R0, E12))
                    /\ \A k \in {5, 6, 7, 8} : Check(l, <<6>>, CoefNames[k], j,
                          CloseTo(o[CoefNames[k]][j], o[DimNames[k]][j] (/) (q (.) A (.) rr), R0, E12))
                \* the same condition evaluated without coefficients
                /\ ~e.coef \/ Check(l, <<6>>, "coefficients do not change dimensional outputs", j,
                      \A k \in 1..8 : SameBits(o[DimNames[k]][j], e.plain[DimNames[k]][j]) \/ CloseTo(o[DimNames[k]][j], e.plain[DimNames[k]][j], R0, E12))

\* ---- inverse design (C13) -------------------------------------------------------
InverseClauses(R, e) ==
    LET c == R.c  n == Len(c.r)
        V == TLCEval(Inflow(c, R.g, e.U, e.Om (.) RpmToRad, Rad(e.az)))
        ok == e.err = "" /\ Len(e.theta) = n /\ \A k \in 1..Len(LoadNames) : Len(e.L[LoadNames[k]]) = n
    IN  /\ Cover(CvInv)
        /\ Check(l, <<13>>, "inverse design returns", e.err, ok)
        /\ ~ok \/ \A i \in 1..n :
           LET s == TLCEval([Sec(R, e, i, V) EXCEPT !.theta = e.theta[i]])      \* computed twist, radians
               L == e.L
               phi == e.theta[i] (+) e.ialpha[i] (+) s.pitch
               Mo(p) == ModelGiven(s, p, e.icl[i], e.icd[i])
               x == TLCEval(Mo(phi))  lo == TLCEval(Mo(phi (-) RootStep))  hi == TLCEval(Mo(phi (+) RootStep))
               lt == TLCEval(Mo(phi (-) TinyPhi))  ht == TLCEval(Mo(phi (+) TinyPhi))
               b == TLCEval(Bracket(s, Mo))
               fin == FiniteLoads(L, i)
               match == TLCEval(LET y == Model(s, phi) IN Close(y.cl, e.icl[i], R1) /\ Close(y.cd, e.icd[i], R1))
           IN  ~(RIsFinite(s.Vx) /\ RIsFinite(s.Vy)) \/ b \notin {"std", "brake", "prop"} \/
               /\ Check(l, <<13>>, "inverse loads are finite", i, fin /\ RIsFinite(e.theta[i]))
               /\ ~fin \/
                 /\ Check(l, <<13>>, "twist is flow angle minus angle of attack minus pitch: flow angle in interval", i, InInterval(b, phi))
                 /\ NearSing(x.m) \/ Check(l, <<13>>, "flow angle solves the momentum equations for the requested coefficients", i, IsRoot(lo, hi))
                 /\ Check(l, <<13>>, "returned angle of attack is the requested one", i, Within(L.alpha[i], Deg(e.ialpha[i]), E9))
                 /\ ~match \/
                    /\ Cover(CvInvMatch)
                    /\ InductionClauses(R, e, i, s, phi, x, lt, ht, <<13>>)
                    /\ Check(l, <<13>>, "lift and drag are the requested ones", i, Close(L.Cl[i], e.icl[i], R1) /\ Close(L.Cd[i], e.icd[i], R1))
                    \* the direct analysis with that twist, when it has the same preferred interval
                    /\ Bracket(s, LAMBDA p : Model(s, p)) # b \/ e.direct.err # "" \/
                       ~(Within(e.direct.L.alpha[i], L.alpha[i], RLit("1e-3"))) \/
                       Check(l, <<13>>, "direct analysis with the computed twist agrees", i,
                         /\ Within(e.direct.L.alpha[i], L.alpha[i], RLit("1e-7"))
                         /\ CloseTo(e.direct.L.Np[i], L.Np[i], RAbs(L.Tp[i]), E6)
                         /\ CloseTo(e.direct.L.Tp[i], L.Tp[i], RAbs(L.Np[i]), E6)
                         \* (near a = -1 or a' = 1 the induction factors amplify the accuracy of the solver by their square)
                         /\ CloseTo(e.direct.L.a[i], L.a[i], R1 (+) (RSq(L.a[i]) (/) RInt(100)), E6) /\ CloseTo(e.direct.L.ap[i], L.ap[i], R1 (+) (RSq(L.ap[i]) (/) RInt(100)), E6))
                    /\ Bracket(s, LAMBDA p : Model(s, p)) # b \/
                       Check(l, <<13>>, "direct analysis with the computed twist returns", e.direct.err, e.direct.err = "")

\* ---- dynamic similarity (C30): results of event e2 are scaled results of e1 --------
\* scales: rho, L (length), U (velocity); rotor speed U/L, viscosity rho U L
ScaleClauses(e) ==
    LET d == e.sc.rho  L == e.sc.L  u == e.sc.U
        b == e.base  o == e.out
        q == d (.) u (.) u
        F == q (.) L (.) L   M == F (.) L   P == F (.) u
        n == Len(b.L.Np)
        ok == e.err = ""
        Cl(x, y, k, s) == CloseTo(y, x (.) k, s (.) k, RLit("1e-7"))
        Sc(name) == CASE name = "P" -> P [] name \in {"T", "Y", "Z"} -> F [] OTHER -> M
        LSc(name) == CASE name \in {"Np", "Tp"} -> q (.) L [] name = "W" -> u [] OTHER -> IF name = "Re" THEN R1 ELSE R1
    IN  /\ Cover(CvScaled)
        /\ Check(l, <<30>>, "scaled analyses return", e.err, ok)
        /\ ~ok \/
           /\ \A k \in 1..Len(LoadNames) : \A i \in 1..n :
                LET nm == LoadNames[k] IN
                Check(l, <<30>>, nm, i, Cl(b.L[nm][i], o.L[nm][i], LSc(nm),
                    IF nm \in {"Np", "Tp"} THEN RMax(RAbs(b.L.Np[i]), RAbs(b.L.Tp[i])) ELSE IF nm \in {"W", "Re"} THEN R0 ELSE R1))
           /\ \A k \in 1..8 : LET nm == DimNames[k] IN
                /\ Check(l, <<30>>, nm, 0, Cl(b.E[nm][1], o.E[nm][1], Sc(nm), IF k \in {2, 3, 4} THEN RAbs(b.E.T[1]) ELSE IF k = 1 THEN RAbs(b.E.P[1]) ELSE RAbs(b.E.Mb[1]) (.) R3))
                /\ Check(l, <<30>>, CoefNames[k], 0, Cl(b.E[CoefNames[k]][1], o.E[CoefNames[k]][1], R1, R1))

\* ---- construction -----------------------------------------------------------------
NewClauses(e) ==
    /\ Check(l, <<29, 1, 2, 3, 4, 5, 6, 7, 12, 13, 30>>, "construction returns", e.err, e.err = "")
    /\ ~Has(e, "after") \/ Check(l, <<29>>, "the user's arrays are unchanged", 0,
         /\ e.after.r = e.c.r /\ e.after.chord = e.c.chord /\ e.after.theta = e.c.theta
         /\ e.after.precurve = e.c.precurve /\ e.after.presweep = e.c.presweep)

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == l = 1 /\ rot = <<>> /\ InitCounters
\* the clauses are expressions (= TRUE), not disjunctive actions
New == /\ Trace[l].op = "New"
       /\ LET e == Trace[l]
              g == TLCEval(Geometry(e.c))
          IN  /\ NewClauses(e) = TRUE
              /\ rot' = Put(rot, e.id, [c |-> e.c, g |-> g, fb |-> TLCEval(FullBlade(e.c, g))])
Section == Trace[l].op = "Section" /\ SectionClauses(rot[Trace[l].id], Trace[l]) = TRUE /\ UNCHANGED rot
ArrayWind == Trace[l].op = "ArrayWind" /\ ArrayWindClauses(rot[Trace[l].id], Trace[l]) = TRUE /\ UNCHANGED rot
Evaluate == Trace[l].op = "Evaluate" /\ EvaluateClauses(rot[Trace[l].id], Trace[l]) = TRUE /\ UNCHANGED rot
Inverse == Trace[l].op = "Inverse" /\ InverseClauses(rot[Trace[l].id], Trace[l]) = TRUE /\ UNCHANGED rot
Scaled == Trace[l].op = "Scaled" /\ ScaleClauses(Trace[l]) = TRUE /\ UNCHANGED rot
End == Trace[l].op = "End" /\ UNCHANGED rot
Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Section \/ ArrayWind \/ Evaluate \/ Inverse \/ Scaled \/ End)

\* every line of the trace was consumed by an action
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
