------------------------------ MODULE T_Polar -------------------------------
(* Validation of recorded polar and airfoil operations (C16-C19, C21).        *)
EXTENDS TraceChecks, Polars
VARIABLES l
CvMid == 82  CvTab == 83  CvOutside == 84  CvNested == 85  CvLowSide == 86  CvInterior == 87  CvMoments == 88  CvNoMoments == 89  CvStalls == 90
CvCylinder == 91  CvTable == 92

E9 == RLit("1e-9")
SeqNear(u, v, tol) == Len(u) = Len(v) /\ \A k \in 1..Len(v) : CloseTo(u[k], v[k], RMaxAbs(v), tol)
SameSeq(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(v) : REq(u[k], v[k])
AngNear(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(v) : Within(u[k], v[k], RLit("1e-9"))
PolarClauses(ids, what, r, x, tol) ==
    /\ Check(l, ids, "Reynolds number: " \o what, 0, CloseTo(r.Re, x.Re, R0, E9))
    /\ Check(l, ids, "angles of attack: " \o what, <<Len(r.al), Len(x.al)>>, AngNear(r.al, x.al))
    /\ \A f \in Cols : Check(l, ids, "values: " \o what, f, SeqNear(r[f], x[f], tol))
SamePolar(r, x) == REq(r.Re, x.Re) /\ SameSeq(r.al, x.al) /\ \A f \in Cols : SameSeq(r[f], x[f])
AirfoilClauses(ids, what, r, x, tol) ==
    /\ Check(l, ids, "number of polars: " \o what, <<Len(r), Len(x)>>, Len(r) = Len(x))
    /\ Len(r) # Len(x) \/ \A i \in 1..Len(x) : PolarClauses(ids, what, r[i], x[i], tol)
\* polars of equal Reynolds number (up to rounding) can come in any order
NearPolar(r, x, tol) == CloseTo(r.Re, x.Re, R0, E9) /\ AngNear(r.al, x.al) /\ \A f \in Cols : SeqNear(r[f], x[f], tol)
AnyOrderClauses(ids, what, r, x, tol) ==
    /\ Check(l, ids, "number of polars: " \o what, <<Len(r), Len(x)>>, Len(r) = Len(x))
    /\ Check(l, ids, "ascending Reynolds order: " \o what, 0, \A i \in 1..(Len(r) - 1) : r[i].Re \preceq r[i + 1].Re)
    /\ Len(r) # Len(x) \/
         /\ \A i \in 1..Len(x) : Check(l, ids, "every polar expected: " \o what, i, \E j \in 1..Len(r) : NearPolar(r[j], x[i], tol))
         /\ \A j \in 1..Len(r) : Check(l, ids, "every polar returned: " \o what, j, \E i \in 1..Len(x) : NearPolar(r[j], x[i], tol))
Kept(ids, e) == /\ Check(l, ids, "inputs are not modified", e.op, e.same)
                /\ Check(l, ids, "result and original do not share changes", e.op, e.indep)
Returned(ids, e) == Check(l, ids, "call returns", <<e.op, e.err>>, e.err = "")

BlendClauses(e) ==
    /\ Returned(<<16>>, e)
    /\ e.err # "" \/
       /\ Kept(<<16>>, e)
       /\ PolarClauses(<<16>>, "blend of polars", e.r, Blend(e.p, e.q, e.w), E9)
       /\ ~(REq(e.w, R0) \/ REq(e.w, R1)) \/
            LET o == IF REq(e.w, R0) THEN e.p ELSE e.q
            IN Check(l, <<16>>, "end weights reproduce the polar", 0, CloseTo(e.r.Re, o.Re, R0, E9) /\
                     \A f \in Cols : SeqNear(e.r[f], Resampled(o, e.r.al, f), E9))
BlendAfClauses(e) ==
    /\ Returned(<<16>>, e)
    /\ e.err # "" \/ (Kept(<<16>>, e) /\ AnyOrderClauses(<<16>>, "blend of airfoils", e.r, BlendAirfoil(e.af, e.bf, e.w), E9))
\* polars in ascending order, and still all of them
NewClauses(e) ==
    /\ Returned(<<17>>, e)
    /\ e.err # "" \/
       /\ Check(l, <<17>>, "polars in ascending Reynolds order", 0, Len(e.r) = Len(e.given) /\ \A i \in 1..(Len(e.r) - 1) : e.r[i].Re \preceq e.r[i + 1].Re)
       /\ Check(l, <<17>>, "the polars given", 0, \A i \in 1..Len(e.given) : \E j \in 1..Len(e.r) : SamePolar(e.r[j], e.given[i]))
       /\ Check(l, <<17>>, "a polar keeps its own copy of the arrays", 0, e.indep)
       /\ Check(l, <<17>>, "inputs are not modified", e.op, e.same)
GetClauses(e) ==
    /\ Returned(<<17>>, e)
    /\ e.err # "" \/
       LET lo == e.af[1].Re  hi == e.af[Len(e.af)].Re
           tab == {i \in 1..Len(e.af) : REq(e.af[i].Re, e.Re)}
       IN  /\ Kept(<<17>>, e)
           /\ (IF tab # {} THEN Cover(CvTab) /\ Check(l, <<17>>, "polar at a tabulated Reynolds number", 0, SamePolar(e.r, e.af[CHOOSE i \in tab : TRUE]))
               ELSE IF e.Re \prec lo THEN Cover(CvOutside) /\ Check(l, <<17>>, "lowest polar below the range", 0, SamePolar(e.r, e.af[1]))
               ELSE IF hi \prec e.Re THEN Cover(CvOutside) /\ Check(l, <<17>>, "highest polar above the range", 0, SamePolar(e.r, e.af[Len(e.af)]))
               ELSE Cover(CvMid) /\ PolarClauses(<<17>>, "polar between two Reynolds numbers", e.r, GetPolar(e.af, e.Re), E9))
CommonClauses(e) ==
    /\ Returned(<<17>>, e)
    /\ e.err # "" \/ (Kept(<<17>>, e) /\ AirfoilClauses(<<17>>, "common angles", e.r, Common(e.af, IF e.al = <<>> THEN AllAngles(e.af) ELSE e.al), E9))
GridClauses(e) ==
    /\ Returned(<<17>>, e)
    /\ e.err # "" \/
       LET al == TLCEval(AllAngles(e.af))
           n == Len(al)
       IN  /\ Check(l, <<17>>, "inputs are not modified", e.op, e.same)
           /\ Check(l, <<17>>, "grid angles", 0, SameSeq(e.al, al))
           /\ Check(l, <<17>>, "grid Reynolds numbers", 0, SameSeq(e.Re, [i \in 1..Len(e.af) |-> e.af[i].Re]))
           /\ \A f \in Cols : Check(l, <<17>>, "grid values", f, Len(e.g[f]) = Len(al) /\ \A k \in 1..Len(al) : Len(e.g[f][k]) = Len(e.af) /\
                 \A i \in 1..Len(e.af) : CloseTo(e.g[f][k][i], Interp(al[k], e.af[i].al, e.af[i][f]), R1, E9))

\* ---- 3-D correction (C18) ---------------------------------------------------------------
Upto90(p) == SelectSeq([k \in 1..Len(p.al) |-> k], LAMBDA k : p.al[k] \preceq D90)
CorrectClauses(e) ==
    /\ Returned(<<18>>, e)
    /\ e.err # "" \/
       /\ Kept(<<18>>, e)
       /\ Check(l, <<18>>, "number of polars: 3-D correction", 0, Len(e.r) = Len(e.af))
       /\ Len(e.r) # Len(e.af) \/ \A i \in 1..Len(e.af) :
            LET p == e.af[i]
                x == TLCEval(Correct3D(p, e.a))
                I == Upto90(p)
            IN  /\ Check(l, <<18>>, "angles, moments and Reynolds number are kept", i, REq(e.r[i].Re, p.Re) /\ AngNear(e.r[i].al, p.al) /\ SameSeq(e.r[i].cm, p.cm))
                /\ AngNear(e.r[i].al, p.al) => \A f \in {"cl", "cd"} : \A z \in 1..Len(I) :
                     Check(l, <<18>>, "Du-Selig correction", <<i, f, I[z]>>, CloseTo(e.r[i][f][I[z]], x[f][I[z]], RMaxAbs(x[f]), E9))

\* ---- extrapolation (C19) ------------------------------------------------------------------
ExtrapClauses(e) ==
    /\ Returned(<<19>>, e)
    /\ e.err # "" \/
       /\ Kept(<<19>>, e)
       /\ Check(l, <<19>>, "number of polars: extrapolation", 0, Len(e.r) = Len(e.af))
       /\ Len(e.r) # Len(e.af) \/ \A i \in 1..Len(e.af) :
            LET p == e.af[i]
                r == e.r[i]
                x == TLCEval(Extrapolate(p, e.x))
                n == Len(r.al)
                AtOrig(f) == \A k \in 1..Len(p.al) : \E j \in 1..n : Within(r.al[j], p.al[k], E9) /\
                               CloseTo(r[f][j], IF f = "cd" THEN RMax(p.cd[k], e.x.cdmin) ELSE p[f][k], R1, E9)
            IN  /\ IF \A k \in 1..Len(p.cm) : REq(p.cm[k], R0) THEN Cover(CvNoMoments) ELSE Cover(CvMoments)
                /\ IF First1(p) \preceq RNeg(LastA(p)) THEN Cover(CvLowSide) ELSE Cover(CvInterior)
                /\ Check(l, <<19>>, "strictly increasing angles from -180 to 180", i, Increasing(r.al) /\ Within(r.al[1], RNeg(D180), E9) /\ Within(r.al[n], D180, E9))
                /\ \A f \in Cols : Check(l, <<19>>, "contains the original data", <<i, f>>, AtOrig(f))
                /\ Check(l, <<19>>, "finite coefficients", i, \A k \in 1..n : RIsFinite(r.cl[k]) /\ RIsFinite(r.cd[k]) /\ (RIsFinite(r.cm[k]) \/ ~HasCm0(p)))
                /\ Check(l, <<19>>, "no lift at +/-180 degrees", i, Within(r.cl[1], R0, E9) /\ Within(r.cl[n], R0, E9))
                /\ Check(l, <<19>>, "drag not below the minimum", i, \A k \in 1..n : e.x.cdmin \preceq r.cd[k])
                /\ PolarClauses(<<19>>, "Viterna extrapolation", IF HasCm0(p) THEN r ELSE [r EXCEPT !.cm = x.cm], x, RLit("1e-8"))
RefuseClauses(e) == Check(l, <<19>>, "extrapolation is refused", e.what, e.err # "")

\* ---- unsteady parameters of a polar (C21): r = control setting, stall angle, zero-cn angle, slope, cn at stall +/-, angle and value of the least drag
Thr == RLit("0.05")
UnsteadyClauses(e) ==
    /\ Returned(<<21>>, e)
    /\ e.err # "" \/
       LET p == e.p
           cylinder == Len(p.al) < 10 \/ Cardinality(Range(p.cl)) < 10
           cn == TLCEval(Cn(p))
           rad == Vec([k \in 1..Len(p.al) |-> Rad(p.al[k])])
           f == TLCEval(FitOver(p.al, cn, e.lmin, e.lmax))
           a0 == RNeg(f.icpt) (/) f.m
           Line(a) == f.m (.) (Rad(a) (-) a0)
           \* shortfall from the line at whole degrees, linear in between
           Dev(a, s) == LET d(z) == s (.) (Line(z) (-) Interp(Rad(z), rad, cn))
                            z0 == RFloor(a)
                            t == a (-) z0
                        IN IF REq(t, R0) THEN d(z0) ELSE (d(z0) (.) (R1 (-) t)) (+) (d(z0 (+) R1) (.) t)
           \* the angle of stall on side s, from angle b to angle c (degrees)
           Stall(a, s, b, c) ==
               LET crossed == Within(Dev(a, s), Thr, RLit("1e-7"))
               IN crossed \/ (Within(a, b, E9) /\ Thr \preceq Dev(b, s)) \/ (Within(a, c, E9) /\ Dev(c, s) \preceq Thr)
           cnU == e.r[5]
           \* the angle below, from the reported normal force on the line
           aL == Deg((e.r[6] (/) f.m) (+) a0)
           clampL(a) == IF Within(a, RInt(5), RLit("1e-7")) THEN RInt(5) ELSE IF Within(a, RInt(-39), RLit("1e-7")) THEN RInt(-39) ELSE a
       IN  /\ Check(l, <<21>>, "inputs are not modified", e.op, e.same)
           /\ IF cylinder THEN Cover(CvCylinder) /\ Check(l, <<21>>, "no parameters for a cylinder", 0, \A k \in 1..8 : REq(e.r[k], R0))
              ELSE /\ Cover(CvStalls)
                   /\ Check(l, <<21>>, "control setting", 0, REq(e.r[1], R0))
                   /\ Check(l, <<21>>, "normal force slope", 0, CloseTo(e.r[4], f.m, R1, RLit("1e-8")))
                   /\ Check(l, <<21>>, "angle of zero normal force (deg)", 0, CloseTo(e.r[3], Deg(a0), R1, RLit("1e-8")))
                   /\ Check(l, <<21>>, "stall angle (deg)", 0, R0 \preceq e.r[2] /\ e.r[2] \preceq RInt(39) /\ Stall(e.r[2], R1, R0, RInt(39)))
                   /\ Check(l, <<21>>, "normal force at stall", 0, CloseTo(e.r[5], Line(e.r[2]), R1, RLit("1e-8")))
                   /\ Check(l, <<21>>, "normal force at negative stall", 0, RInt(-40) \preceq aL /\ aL \preceq RLit("5.0001") /\ Stall(clampL(aL), RNeg(R1), RInt(5), RInt(-39)))
                   /\ Check(l, <<21>>, "least drag", 0, \A k \in 1..Len(p.cd) : e.r[8] \preceq p.cd[k])
                   /\ Check(l, <<21>>, "angle of the least drag (deg)", 0, \E k \in 1..Len(p.cd) : Within(p.al[k], e.r[7], E9) /\ Within(p.cd[k], e.r[8], E9))

\* ---- unsteady parameters of a table (C21) -----------------------------------------------
StdDefault == {"T_f0", "T_V0", "T_p", "T_VL", "b1", "b2", "b5", "A1", "A2", "A5", "St_sh", "x_cp_bar", "UACutout", "filtCutOff"}
StdZero == {"S1", "S2", "S3", "S4", "k0", "k1", "k2", "k3", "k1_hat"}
TableClauses(e) ==
    LET p == e.p
        flat == AllSame(p.cl)
        lo == NearestI(p.al, RInt(-30))
        hi == NearestI(p.al, RInt(30)) - 1                 \* last angle looked at
        u == e.u
        Cross == {k \in lo..(hi - 1) : p.cl[k] \preceq R0 /\ R0 \prec p.cl[k + 1]}
        At(k, f) == p[f][k] (+) (((p[f][k + 1] (-) p[f][k]) (/) (p.cl[k + 1] (-) p.cl[k])) (.) RNeg(p.cl[k]))
        Near(a, b) == CloseTo(a, b, R1, E9)
        Alphas0 == {At(k, "al") : k \in Cross} \cup (IF R0 \preceq p.cl[lo] THEN {p.al[lo]} ELSE {}) \cup (IF p.cl[hi] \preceq R0 THEN {p.al[hi]} ELSE {})
        Zero(k) == Near(u.alpha0, At(k, "al")) /\ Near(u.Cd0, At(k, "cd")) /\ Near(u.Cm0, At(k, "cm"))
        End(k) == Near(u.alpha0, p.al[k]) /\ Near(u.Cd0, p.cd[k]) /\ Near(u.Cm0, p.cm[k])
        z == NearestI(p.al, R0)
        cn == TLCEval(Cn(p))
        b == TLCEval(Breaks(p, u.alpha0))
        rad == Vec([k \in 1..Len(p.al) |-> Rad(p.al[k])])
        slopes == {SlopeAt(rad, cn, i, b.a0, b.i1 - 1) : i \in b.a0..(b.i1 - 1)}
    IN  IF ~flat /\ lo >= hi THEN TRUE ELSE
        IF e.err # "" THEN Check(l, <<21>>, "table analysis returns", e.err, ~flat /\ ~AllSame(p.cm) /\ ~\A a \in Alphas0 : Breaks(p, a).ok)
        ELSE /\ Cover(CvTable)
             /\ Check(l, <<21>>, "the table is returned unchanged", 0, e.same /\ SameSeq(u.Alpha, p.al) /\ SameSeq(u.Cl, p.cl) /\ SameSeq(u.Cd, p.cd) /\ SameSeq(u.Cm, p.cm))
             /\ (IF flat THEN Check(l, <<21>>, "zero lift of a cylinder", 0, REq(u.alpha0, R0) /\ REq(u.Cd0, p.cd[z]) /\ REq(u.Cm0, R0))
                 ELSE Check(l, <<21>>, "drag and moment at the angle of zero lift", 0,
                            (\E k \in Cross : Zero(k)) \/ (R0 \preceq p.cl[lo] /\ End(lo)) \/ (p.cl[hi] \preceq R0 /\ End(hi))))
             /\ Check(l, <<21>>, "symmetric separation angles", 0, Within(u.alpha2, RNeg(u.alpha1), E9))
             /\ (IF AllSame(p.cm) THEN Check(l, <<21>>, "no breakpoints without moments", 0, REq(u.Cn1, R0) /\ REq(u.Cn2, R0) /\ REq(u.C_nalpha, R0) /\ REq(u.alpha1, R0))
                 ELSE ~b.ok \/
                    /\ Cover(CvNested)
                    /\ Check(l, <<21>>, "normal force at the upper breakpoint", 0, Near(u.Cn1, cn[b.i1]))
                    /\ Check(l, <<21>>, "normal force at the lower breakpoint", 0, Near(u.Cn2, cn[b.i2]))
                    /\ Check(l, <<21>>, "separation angle", 0, Within(u.alpha1, p.al[b.j], E9))
                    /\ Check(l, <<21>>, "normal force slope of the table", 0, (\E s \in slopes : Near(u.C_nalpha, s)) /\ \A s \in slopes : s \preceq u.C_nalpha \/ Near(u.C_nalpha, s)))
             /\ Check(l, <<21>>, "standard parameters", 0, (\A k \in StdDefault : u.std[k] = "Default") /\ (\A k \in StdZero : u.std[k] = "0") /\ u.std["eta_e"] = "1")

Init == l = 1 /\ InitCounters
E == Trace[l]
Step == CASE E.op = "Blend" -> BlendClauses(E) [] E.op = "BlendAf" -> BlendAfClauses(E) [] E.op = "New" -> NewClauses(E) [] E.op = "Get" -> GetClauses(E)
          [] E.op = "Common" -> CommonClauses(E) [] E.op = "Grid" -> GridClauses(E) [] E.op = "Correct" -> CorrectClauses(E) [] E.op = "Extrap" -> ExtrapClauses(E)
          [] E.op = "Refuse" -> RefuseClauses(E) [] E.op = "Unsteady" -> UnsteadyClauses(E) [] E.op = "Table" -> TableClauses(E) [] OTHER -> TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
