----------------------------- MODULE Kinematics -----------------------------
(* Geometry of the blade and the wind seen by its sections.                  *)
(* A configuration `c` is the record of constructor arguments (degrees):     *)
(*   r, chord, theta, precurve, presweep : sequences;  Rhub, Rtip,           *)
(*   precurveTip, presweepTip, precone, tilt, yaw, shear, hubHt : doubles    *)
EXTENDS IEEE

\* ---- stations: those exactly at hub or tip are moved inward (C29) --------
Nd(r, i) == (r[i] (-) r[1]) (/) (r[Len(r)] (-) r[1])
NdHub(r) == RMin(RLit("0.01"), (Nd(r, 1) (+) Nd(r, 2)) (.) RHalf)
NdTip(r) == RMax(RLit("0.99"), (Nd(r, Len(r) - 1) (+) Nd(r, Len(r))) (.) RHalf)
\* value of the piecewise linear v(r) at relative position nd in the last interval
AtTip(r, v) ==
    LET n == Len(r)
        f == (NdTip(r) (-) Nd(r, n - 1)) (/) (Nd(r, n) (-) Nd(r, n - 1))
    IN  v[n - 1] (+) (f (.) (v[n] (-) v[n - 1]))
HubNudged(c) == REq(c.Rhub, c.r[1])
TipNudged(c) == REq(c.Rtip, c.r[Len(c.r)])
Stations(c) ==
    LET r == c.r  n == Len(r)
    IN  Vec([i \in 1..n |->
            IF i = 1 /\ HubNudged(c) THEN r[1] (+) (NdHub(r) (.) (r[n] (-) r[1]))
            ELSE IF i = n /\ TipNudged(c) THEN r[1] (+) (NdTip(r) (.) (r[n] (-) r[1]))
            ELSE r[i]])
Curve(c) == Vec([i \in 1..Len(c.r) |->
    IF i = Len(c.r) /\ REq(c.precurveTip, c.precurve[i]) THEN AtTip(c.r, c.precurve) ELSE c.precurve[i]])
Sweep(c) == Vec([i \in 1..Len(c.r) |->
    IF i = Len(c.r) /\ REq(c.presweepTip, c.presweep[i]) THEN AtTip(c.r, c.presweep) ELSE c.presweep[i]])

\* ---- blade axis in azimuth coordinates, local cone angle, path length ----
Axis(r, cv, sw, cone) ==           \* cone in radians
    LET s == RSin(cone)  c == RCos(cone)
    IN  [x |-> Vec([i \in 1..Len(r) |-> (cv[i] (.) c) (-) (r[i] (.) s)]),
         y |-> sw,
         z |-> Vec([i \in 1..Len(r) |-> (r[i] (.) c) (+) (cv[i] (.) s)])]
SegAngle(ax, i) == RAtan2(ax.x[i] (-) ax.x[i + 1], ax.z[i + 1] (-) ax.z[i])
ConeAngles(ax) ==
    LET n == Len(ax.x)
    IN  Vec([i \in 1..n |-> IF i = 1 THEN SegAngle(ax, 1)
                            ELSE IF i = n THEN SegAngle(ax, n - 1)
                            ELSE RHalf (.) (SegAngle(ax, i - 1) (+) SegAngle(ax, i))])
SegLen(r, cv, sw, i) == RSqrt(RSq(r[i + 1] (-) r[i]) (+) RSq(cv[i + 1] (-) cv[i]) (+) RSq(sw[i + 1] (-) sw[i]))

\* ---- rotation of a vector <<x, y, z>> about an axis (documented frames) ---
RotY(v, a) == <<(v[1] (.) RCos(a)) (+) (v[3] (.) RSin(a)), v[2], (v[3] (.) RCos(a)) (-) (v[1] (.) RSin(a))>>
WindToYaw(v, psi) == <<(v[1] (.) RCos(psi)) (+) (v[2] (.) RSin(psi)), (v[2] (.) RCos(psi)) (-) (v[1] (.) RSin(psi)), v[3]>>
YawToHub(v, th) == <<(v[1] (.) RCos(th)) (-) (v[3] (.) RSin(th)), v[2], (v[1] (.) RSin(th)) (+) (v[3] (.) RCos(th))>>
HubToYaw(v, th) == YawToHub(v, RNeg(th))
HubToAzimuth(v, la) == <<v[1], (v[2] (.) RCos(la)) (+) (v[3] (.) RSin(la)), (v[3] (.) RCos(la)) (-) (v[2] (.) RSin(la))>>
AzimuthToHub(v, la) == HubToAzimuth(v, RNeg(la))
AzimuthToBlade(v, ph) == <<(v[1] (.) RCos(ph)) (+) (v[3] (.) RSin(ph)), v[2], (v[3] (.) RCos(ph)) (-) (v[1] (.) RSin(ph))>>
Cross(v, w) == <<(v[2] (.) w[3]) (-) (v[3] (.) w[2]), (v[3] (.) w[1]) (-) (v[1] (.) w[3]), (v[1] (.) w[2]) (-) (v[2] (.) w[1])>>

RpmToRad == RPi (/) RInt(30)

\* ---- geometry of a configuration, computed once per rotor -----------------
Geometry(c) ==
    LET r == Stations(c)  cv == Curve(c)  sw == Sweep(c)  pc == Rad(c.precone)
        ax == Axis(r, cv, sw, pc)
    IN  [r |-> r, cv |-> cv, sw |-> sw, ax |-> ax, cone |-> ConeAngles(ax)]

\* ---- wind seen by every section (C04) -------------------------------------
\* az in radians, omega in rad/s; result: sequence of <<Vx, Vy, 1 + z/hubHt>>
Inflow(c, g, U, omega, az) ==
    LET tilt == Rad(c.tilt)  yaw == Rad(c.yaw)
    IN  Vec([i \in 1..Len(g.r) |->
          LET pos == <<g.ax.x[i], g.ax.y[i], g.ax.z[i]>>
              h   == R1 (+) (HubToYaw(AzimuthToHub(pos, az), tilt)[3] (/) c.hubHt)
              V   == U (.) RPow(h, c.shear)
              wnd == AzimuthToBlade(HubToAzimuth(YawToHub(WindToYaw(<<V, R0, R0>>, yaw), tilt), az), g.cone[i])
              rot == AzimuthToBlade(Cross(<<RNeg(omega), R0, R0>>, pos), g.cone[i])
          IN  <<wnd[1] (+) rot[1], wnd[2] (+) rot[2], h>>])

\* ---- azimuthal sectors (C07) ----------------------------------------------
Axisymmetric(c) == REq(c.tilt, R0) /\ REq(c.yaw, R0) /\ REq(c.shear, R0)
Sectors(c) == IF Axisymmetric(c) THEN 1 ELSE IF c.nSector > 4 THEN c.nSector ELSE 4
=============================================================================
