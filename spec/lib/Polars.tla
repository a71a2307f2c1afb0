------------------------------- MODULE Polars -------------------------------
(* Polars (one Reynolds number: angles in degrees, lift, drag, moment) and    *)
(* airfoils (sequences of polars): interpolation, blending, gridding, 3-D     *)
(* correction, extrapolation and unsteady parameters.                         *)
EXTENDS IEEE, SequencesExt, FiniteSets

Cols == {"cl", "cd", "cm"}
\* ---- piecewise linear interpolation, constant outside -------------------------
RECURSIVE LocBS(_, _, _, _)
\* largest index j with xs[j] <= x, for xs[lo] <= x < xs[hi]
LocBS(x, xs, lo, hi) == IF hi - lo = 1 THEN lo
                        ELSE LET m == (lo + hi) \div 2 IN IF xs[m] \preceq x THEN LocBS(x, xs, m, hi) ELSE LocBS(x, xs, lo, m)
Interp(x, xs, ys) == IF x \preceq xs[1] THEN ys[1] ELSE IF xs[Len(xs)] \preceq x THEN ys[Len(xs)]
                     ELSE LET j == LocBS(x, xs, 1, Len(xs))
                          IN ys[j] (+) (((ys[j + 1] (-) ys[j]) (/) (xs[j + 1] (-) xs[j])) (.) (x (-) xs[j]))
Resampled(p, al, f) == Vec([k \in 1..Len(al) |-> Interp(al[k], p.al, p[f])])
Ascending(S) == SetToSortSeq(S, RLt)
Increasing(al) == \A k \in 1..(Len(al) - 1) : al[k] \prec al[k + 1]
First1(p) == p.al[1]
LastA(p) == p.al[Len(p.al)]

\* ---- blending (C16) ------------------------------------------------------------
Mix(a, b, w) == a (+) (w (.) (b (-) a))
CommonAngles(p, q) == Ascending({x \in Range(p.al) \cup Range(q.al) : RMax(First1(p), First1(q)) \preceq x /\ x \preceq RMin(LastA(p), LastA(q))})
MixCols(u, v, w) == Vec([k \in 1..Len(u) |-> Mix(u[k], v[k], w)])
Blend(p, q, w) == LET al == TLCEval(CommonAngles(p, q))
                  IN [Re |-> Mix(p.Re, q.Re, w), al |-> al,
                      cl |-> MixCols(Resampled(p, al, "cl"), Resampled(q, al, "cl"), w),
                      cd |-> MixCols(Resampled(p, al, "cd"), Resampled(q, al, "cd"), w),
                      cm |-> MixCols(Resampled(p, al, "cm"), Resampled(q, al, "cm"), w)]
\* ---- airfoils (C17) --------------------------------------------------------------
GetPolar(af, Re) ==
    IF Re \preceq af[1].Re THEN af[1] ELSE IF af[Len(af)].Re \preceq Re THEN af[Len(af)]
    ELSE LET i == CHOOSE j \in 1..(Len(af) - 1) : af[j].Re \preceq Re /\ Re \prec af[j + 1].Re
         IN IF REq(af[i].Re, Re) THEN af[i] ELSE Blend(af[i], af[i + 1], (Re (-) af[i].Re) (/) (af[i + 1].Re (-) af[i].Re))
ReOf(af) == {af[i].Re : i \in 1..Len(af)}
BlendAirfoil(a, b, w) == LET res == Ascending(ReOf(a) \cup ReOf(b))
                         IN Vec([k \in 1..Len(res) |-> Blend(GetPolar(a, res[k]), GetPolar(b, res[k]), w)])
AllAngles(af) == Ascending(UNION {Range(af[i].al) : i \in 1..Len(af)})
OnAngles(p, al) == [Re |-> p.Re, al |-> al, cl |-> Resampled(p, al, "cl"), cd |-> Resampled(p, al, "cd"), cm |-> Resampled(p, al, "cm")]
Common(af, al) == Vec([i \in 1..Len(af) |-> OnAngles(af[i], al)])

\* ---- least squares line y = slope * x + icpt over the points with lo <= x <= hi (degrees; x in radians) ---
Picked(al, lo, hi) == SelectSeq([k \in 1..Len(al) |-> k], LAMBDA k : Rad(lo) \preceq Rad(al[k]) /\ Rad(al[k]) \preceq Rad(hi))
LineFit(x, y) == LET n == RInt(Len(x))
                     mx == RSum(x) (/) n  my == RSum(y) (/) n
                     dx == Vec([k \in 1..Len(x) |-> x[k] (-) mx])
                     dy == Vec([k \in 1..Len(x) |-> y[k] (-) my])
                     s == RDot(dx, dy) (/) RDot(dx, dx)
                 IN [m |-> s, icpt |-> my (-) (s (.) mx)]
FitOver(al, y, lo, hi) == LET I == Picked(al, lo, hi)
                          IN LineFit(Vec([k \in 1..Len(I) |-> Rad(al[I[k]])]), Vec([k \in 1..Len(I) |-> y[I[k]]]))

\* ---- 3-D correction: Du-Selig (C18); a: [rR, cr, tsr, amax, lmin, lmax] ------------------
Correct3D(p, a) ==
    LET f == TLCEval(FitOver(p.al, p.cl, a.lmin, a.lmax))
        alpha0 == RNeg(f.icpt) (/) f.m
        lam == a.tsr (/) RSqrt(R1 (+) RSq(a.tsr))
        e1 == (R1 (/) lam) (/) a.rR
        Factor(ex) == LET c == RPow(a.cr, ex)
                      IN (((((RLit("1.6") (.) a.cr) (/) RLit("0.1267")) (.) (R1 (-) c)) (/) (R1 (+) c)) (-) R1) (/) f.m
        fcl == Factor(e1)
        fcd == Factor(e1 (/) R2)
        cd0 == Interp(R0, p.al, p.cd)
        Fade(al) == IF al \preceq a.amax THEN R1 ELSE RSq((RInt(90) (-) al) (/) (RInt(90) (-) a.amax))
    IN  [Re |-> p.Re, al |-> p.al, cm |-> p.cm,
         cl |-> Vec([k \in 1..Len(p.al) |-> p.cl[k] (+) ((fcl (.) ((f.m (.) (Rad(p.al[k]) (-) alpha0)) (-) p.cl[k])) (.) Fade(p.al[k]))]),
         cd |-> Vec([k \in 1..Len(p.al) |-> p.cd[k] (+) (fcd (.) (p.cd[k] (-) cd0))])]

\* ---- extrapolation to +/-180 degrees: Viterna (C19); x: [cdmax, useAR, AR, cdmin, n] ----------
D90 == RInt(90)
D180 == RInt(180)
ClAdj == RLit("0.7")
Linsp(a, b, n) == [k \in 1..n |-> IF k = n THEN b ELSE a (+) ((RInt(k - 1) (.) (b (-) a)) (/) RInt(n - 1))]
ExtAngles(p, n) ==
    LET hi == LastA(p)  lo == First1(p)
        low == lo \preceq RNeg(hi)
        s3 == Tail(Linsp(RNeg(D90), IF low THEN lo ELSE RNeg(hi), n))
    IN  Linsp(RNeg(D180), hi (-) D180, n) \o Tail(Linsp(hi (-) D180, RNeg(D90), n))
        \o (IF low THEN SubSeq(s3, 1, n - 2) ELSE s3)
        \o (IF low THEN <<>> ELSE SubSeq(Linsp(RNeg(hi), lo, n), 2, n - 2))
        \o p.al \o Tail(Linsp(hi, D90, n)) \o Tail(Linsp(D90, D180 (-) hi, n)) \o Tail(Linsp(D180 (-) hi, D180, n))
CdMax(p, x) == RMax(RMaxAbs(p.cd), IF x.useAR THEN RLit("1.11") (+) (RLit("0.018") (.) x.AR) ELSE x.cdmax)
\* lift and drag at angle al (degrees) outside the data
ViternaAt(p, cdmax, al) ==
    LET n == Len(p.al)
        hi == p.al[n]  lo == p.al[1]
        ah == Rad(hi)
        sa == RSin(ah)  ca == RCos(ah)
        A == (((p.cl[n] (-) ((cdmax (.) sa) (.) ca)) (.) sa)) (/) RSq(ca)
        Bc == (p.cd[n] (-) ((cdmax (.) sa) (.) sa)) (/) ca
        \* at 0 <= t <= 90 degrees, lift scaled by f
        V(t0, f) == LET t == RMax(Rad(t0), RLit("0.0001"))
                    IN <<(((cdmax (/) R2) (.) RSin(R2 (.) t)) (+) ((A (.) RSq(RCos(t))) (/) RSin(t))) (.) f,
                         (cdmax (.) RSq(RSin(t))) (+) (Bc (.) RCos(t))>>
        clh == p.cl[n]
    IN  IF (D180 (-) hi) \prec al THEN <<(((al (-) D180) (/) hi) (.) clh) (.) ClAdj, V(D180 (-) al, R1)[2]>>
        ELSE IF D90 \prec al THEN V(D180 (-) al, RNeg(ClAdj))
        ELSE IF hi \prec al THEN V(al, R1)
        ELSE IF RNeg(hi) \prec lo /\ RNeg(hi) \prec al
             THEN <<RNeg(clh (.) ClAdj) (+) (((al (+) hi) (/) (lo (+) hi)) (.) (p.cl[1] (+) (clh (.) ClAdj))),
                    p.cd[1] (+) (((al (-) lo) (/) (RNeg(hi) (-) lo)) (.) (p.cd[n] (-) p.cd[1]))>>
        ELSE IF RNeg(D90) \prec al THEN V(RNeg(al), RNeg(ClAdj))
        ELSE IF (hi (-) D180) \prec al THEN V(al (+) D180, ClAdj)
        ELSE <<(((al (+) D180) (/) hi) (.) clh) (.) ClAdj, V(al (+) D180, R1)[2]>>
\* moments: defined on the multiples of 10 degrees outside the data, interpolated in between
CmGrid(p) == {g \in {RInt(10 * k) : k \in -18..18} : g \prec First1(p) \/ LastA(p) \prec g}
ZeroLift(p) == LET I == {i \in 1..(Len(p.al) - 1) : RAbs(p.al[i]) \prec RInt(20) /\ p.cl[i] \preceq R0 /\ R0 \preceq p.cl[i + 1]}
               IN IF I = {} THEN 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* the moment model needs the moment at zero lift, looked for between neighbouring angles (or extended from the first two)
HasCm0(p) == ~REq(p.cl[ZeroLift(p)], p.cl[ZeroLift(p) + 1])
Cm0(p) == LET i == ZeroLift(p)
              t == RNeg(p.cl[i]) (/) (p.cl[i + 1] (-) p.cl[i])
          IN p.cm[i] (+) (t (.) (p.cm[i + 1] (-) p.cm[i]))
CmAtGrid(p, g, cl, cd) ==
    LET n == Len(p.al)
        ah == Rad(p.al[n])
        cm0 == Cm0(p)
        XM == (cm0 (-) p.cm[n]) (/) ((p.cl[n] (.) RCos(ah)) (+) (p.cd[n] (.) RSin(ah)))
        co == (XM (-) RLit("0.25")) (/) RTan(ah (-) Rad(D90))
        t == Rad(RAbs(g))
        x == (co (.) RTan(t (-) Rad(D90))) (+) RLit("0.25")
    IN  IF REq(g, D180) \/ REq(g, RNeg(D180)) THEN R0
        ELSE IF REq(g, RInt(170)) THEN RLit("-0.5") ELSE IF REq(g, RInt(-170)) THEN RLit("0.4")
        ELSE IF REq(g, R0) THEN cm0
        ELSE IF R0 \prec g THEN cm0 (-) (x (.) ((cl (.) RCos(t)) (+) (cd (.) RSin(t))))
        ELSE RNeg(cm0 (-) (x (.) ((RNeg(cl) (.) RCos(t)) (+) (cd (.) RSin(t)))))
Inside(p, a) == First1(p) \preceq a /\ a \preceq LastA(p)
Extrapolate(p, x) ==
    LET cdmax == CdMax(p, x)
        al == TLCEval(Vec(ExtAngles(p, x.n)))
        v == Vec([k \in 1..Len(al) |-> IF Inside(p, al[k]) THEN <<Interp(al[k], p.al, p.cl), Interp(al[k], p.al, p.cd)>> ELSE ViternaAt(p, cdmax, al[k])])
        cl == Vec([k \in 1..Len(al) |-> v[k][1]])
        cd == Vec([k \in 1..Len(al) |-> RMax(v[k][2], x.cdmin)])
        zero == \A k \in 1..Len(p.cm) : REq(p.cm[k], R0)
        ga == TLCEval(Ascending(CmGrid(p) \cup Range(p.al)))
        gm == Vec([k \in 1..Len(ga) |-> IF Inside(p, ga[k]) THEN Interp(ga[k], p.al, p.cm)
                                        ELSE IF zero THEN R0 ELSE CmAtGrid(p, ga[k], Interp(ga[k], al, cl), Interp(ga[k], al, cd))])
    IN  [Re |-> p.Re, al |-> al, cl |-> cl, cd |-> cd, cm |-> Vec([k \in 1..Len(al) |-> Interp(al[k], ga, gm)])]

\* ---- unsteady parameters (C21) -------------------------------------------------------------
Cn(p) == Vec([k \in 1..Len(p.al) |-> (p.cl[k] (.) RCos(Rad(p.al[k]))) (+) (p.cd[k] (.) RSin(Rad(p.al[k])))])
\* ---- unsteady parameters of a table of coefficients over angle: CCAirfoil.eval_unsteady ----
\* (p.al in degrees) index of the tabulated angle nearest to x
NearestI(al, x) == LET D == [k \in 1..Len(al) |-> RAbs(al[k] (-) x)]
                   IN CHOOSE k \in 1..Len(al) : (\A j \in 1..Len(al) : D[k] \preceq D[j]) /\ \A j \in 1..(k - 1) : D[k] \prec D[j]
AllSame(v) == \A k \in 1..Len(v) : REq(v[k], v[1])
\* the index in lo..hi-1 where y departs most from the chord between lo and hi in the sense of dist; lo if it nowhere does
BreakAt(x, y, lo, hi, dist(_)) ==
    LET fit(i) == y[lo] (+) (((y[hi] (-) y[lo]) (/) (x[hi] (-) x[lo])) (.) (x[i] (-) x[lo]))
        D == [i \in lo..(hi - 1) |-> IF i = lo THEN R0 ELSE dist(y[i] (-) fit(i))]
        Best == {i \in lo..(hi - 1) : \A j \in lo..(hi - 1) : D[j] \preceq D[i]}
    IN  IF hi <= lo \/ \A i \in lo..(hi - 1) : D[i] \preceq R0 THEN lo ELSE CHOOSE i \in Best : \A j \in Best : i <= j
\* local minima of y among lo..hi-1 (ends count)
LocalMins(y, lo, hi) == {i \in lo..(hi - 1) : (i = lo \/ y[i] \prec y[i - 1]) /\ (i = hi - 1 \/ y[i] \prec y[i + 1])}
MaxI(S) == CHOOSE i \in S : \A j \in S : j <= i
\* slope at index i of lo..hi (hi - lo >= 1), second order on any spacing, first order at the ends
SlopeAt(x, y, i, lo, hi) ==
    LET d(j) == (y[j + 1] (-) y[j]) (/) (x[j + 1] (-) x[j])
        h(j) == x[j + 1] (-) x[j]
    IN IF i = lo THEN d(lo) ELSE IF i = hi THEN d(hi - 1)
       ELSE ((h(i) (.) d(i - 1)) (+) (h(i - 1) (.) d(i))) (/) (h(i - 1) (+) h(i))
\* the points that the parameters are read from, given the zero-lift angle; ok = they all exist
Breaks(p, alpha0) ==
    LET al == p.al
        a0 == NearestI(al, alpha0)
        low == NearestI(al, RInt(-30))
        h == NearestI(al, al[a0] (+) RInt(35))
        M1 == LocalMins(p.cm, low, h)
        top == MaxI(M1)
        i1 == BreakAt(al, p.cm, a0, top, LAMBDA z : z)
        low2 == NearestI(al, ((al[a0] (+) al[i1]) (/) R2) (-) RInt(30))
        i2 == BreakAt(al, p.cm, low2, a0, RAbs)
        j == BreakAt(al, p.cd, NearestI(al, R0), i1, RNeg)
    IN  IF M1 = {} THEN [ok |-> FALSE]
        ELSE [ok |-> LocalMins(p.cm, low2, top) # {} /\ i1 - a0 >= 2, a0 |-> a0, i1 |-> i1, i2 |-> i2, j |-> j]
=============================================================================
