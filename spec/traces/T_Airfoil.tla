----------------------------- MODULE T_Airfoil ------------------------------
(* Validation of recorded airfoil tables and the curves through them (C14,    *)
(* C15): deviations from the table, smoothness, slopes, design points.        *)
(* Cover numbers 31..40 are used here.                                        *)
EXTENDS TraceChecks, IEEE, SequencesExt, FiniteSets
VARIABLES l, tab
CvFew == 31  CvSmoothed == 32  CvKinks == 33  CvOutside == 34  CvReSlope == 35  CvSingle == 36  CvZero == 37  CvSearch == 38  CvMoment == 39  CvRefuse == 40
E9 == RLit("1e-9")
Three == {"cl", "cd", "cm"}
Smoothing == [cl |-> RLit("0.1"), cd |-> RLit("0.001"), cm |-> RLit("0.0001")]
Single(t) == Len(t.Re) < 2
Asked(t, f) == f # "cm" \/ t.hasCm

BuildClauses(e) ==
    IF Len(e.al) < 2 THEN Cover(CvRefuse) /\ Check(l, <<14>>, "fewer than two angles are refused", Len(e.al), e.err # "")
    ELSE /\ Check(l, <<14>>, "table is accepted", e.err, e.err = "")
         /\ Check(l, <<14>>, "arrays of the caller are not modified", 0, e.same)
         /\ (IF Len(e.al) < 4 THEN Cover(CvFew) ELSE TRUE)
         /\ (IF Single(e) THEN Cover(CvSingle) ELSE TRUE)
\* values at the tabulated points
FitClauses(e) ==
    /\ Check(l, <<14>>, "values at tabulated points", e.err, e.err = "")
    /\ e.err # "" \/ \A f \in Three : Asked(tab, f) =>
         LET d == TLCEval(Vec([k \in 1..Len(tab[f]) |-> RSq(e.v[f][k] (-) tab[f][k])]))
             sum == RSum(d) (.) (IF Single(tab) THEN R2 ELSE R1)
         IN  /\ Check(l, <<14>>, "total squared deviation from the table", <<f, Len(tab.al), Len(tab.Re), RText(sum)>>, sum \preceq (Smoothing[f] (.) RLit("1.0015")))
             /\ (IF (Smoothing[f] (.) RHalf) \prec sum THEN Cover(CvSmoothed) ELSE TRUE)
\* samples v = f(-H), f(-h), f(0), f(h), f(H) about a tabulated angle or Reynolds number
SmoothClauses(e) ==
    /\ Check(l, <<14>>, "values near tabulated points", e.err, e.err = "")
    /\ e.err # "" \/ \A f \in Three : Asked(tab, f) =>
         LET v == e.v[f]
             jump(lo, hi, h) == RAbs(((hi (-) v[3]) (/) h) (-) ((v[3] (-) lo) (/) h))
             \* how much the slopes bend on the way from h to H, on both sides and across
             big == jump(v[1], v[5], e.H) (+) (RAbs(((v[5] (-) v[3]) (/) e.H) (-) ((v[4] (-) v[3]) (/) e.h)) (+) RAbs(((v[3] (-) v[1]) (/) e.H) (-) ((v[3] (-) v[2]) (/) e.h)))
             small == jump(v[2], v[4], e.h)
             scale == (RMaxAbs(v) (+) RLit("1e-3")) (/) e.unit
         IN  /\ Check(l, <<14>>, "continuous with continuous slope", <<f, e.axis>>, small \preceq ((RLit("0.3") (.) big) (+) (RLit("1e-6") (.) scale)))
             /\ (IF (RLit("1e-4") (.) scale) \prec big THEN Cover(CvKinks) ELSE TRUE)
\* samples f at -2h, -h, -h/2, h/2, h, 2h
SlopeOf(v, h) == LET d1 == ((RInt(8) (.) (v[5] (-) v[2])) (-) (v[6] (-) v[1])) (/) (RInt(12) (.) h)
                     d2 == ((RInt(8) (.) (v[4] (-) v[3])) (-) (v[5] (-) v[2])) (/) (RInt(6) (.) h)
                 IN  [d |-> d2, err |-> RAbs(d1 (-) d2)]
DerivClauses(e) ==
    /\ Check(l, <<14>>, "derivatives return", e.err, e.err = "")
    /\ e.err # "" \/ \A f \in {"cl", "cd"} : \A x \in {"alpha", "Re"} :
         LET got == e.d[f][x]
             s == SlopeOf(e.v[f][x], e.h[x])
             unit == e.unit[x]
             z == IF x = "alpha" THEN e.outA ELSE e.outR \/ Single(tab)
         IN  /\ (IF z THEN Cover(CvOutside) /\ Check(l, <<14>>, "no slope where the coefficients are constant", <<f, x>>, Within(got (.) unit, R0, E9))
                 ELSE /\ (IF x = "Re" THEN Cover(CvReSlope) ELSE TRUE)
                      /\ Check(l, <<14>>, "slopes are the derivatives of the coefficients", <<f, x, RText(got), RText(s.d), RText(s.err)>>,
                           RAbs(got (-) s.d) (.) unit \preceq ((RLit("4") (.) (s.err (.) unit)) (+) (RLit("2e-8") (.) (R1 (+) RAbs(s.d (.) unit))))))
IndepClauses(e) == /\ Check(l, <<14>>, "values at any Reynolds number", e.err, e.err = "")
                   /\ e.err # "" \/ \A f \in Three : Asked(tab, f) => \A k \in 1..Len(e.v[f]) :
                        Check(l, <<14>>, "single Reynolds number: result does not depend on it", f, CloseTo(e.v[f][k], e.v[f][1], R1, E9))
AskClauses(e) == /\ Check(l, <<14>>, "moments exactly when asked for and supplied", <<e.ask, tab.hasCm, e.n>>, e.n = (IF e.ask /\ tab.hasCm THEN 3 ELSE 2))
                 /\ (IF e.ask /\ tab.hasCm THEN Cover(CvMoment) ELSE TRUE)

\* ---- design points (C15) -------------------------------------------------------------------
GridA == [k \in 1..201 |-> Rad(RInt(-20) (+) ((RInt(3 * (k - 1))) (/) RInt(10)))]
\* index sets of the angles nearest to x degrees (more than one only when equally near)
NearSet(al, x) == {k \in 1..Len(al) : \A j \in 1..Len(al) : RAbs(al[k] (-) x) \preceq (RAbs(al[j] (-) x) (+) E9)}
Lo == NearSet(tab.al, RInt(-20))
Hi == NearSet(tab.al, RInt(40))
SurelyZero == Lo = Hi /\ Cardinality(Lo) = 1
SurelyGrid == Lo \cap Hi = {}
PointClauses(what, e) ==
    /\ Check(l, <<15>>, what \o " returns", e.err, e.err = "")
    /\ e.err # "" \/
       LET eff == e.r[1]  a == e.r[2]  cl == e.r[3]  cd == e.r[4]
           onGrid == {k \in 1..201 : Within(a (+) e.m, GridA[k], E9)}
           E == [k \in 1..201 |-> e.g.cl[k] (/) e.g.cd[k]]
           Best(k) == IF what = "best efficiency" THEN \A j \in 1..201 : E[j] \preceq E[k] \/ CloseTo(E[j], E[k], R1, E9)
                      ELSE \A j \in 1..201 : e.g.cl[j] \preceq e.g.cl[k] \/ CloseTo(e.g.cl[j], e.g.cl[k], R1, E9)
           isZero == Within(a, R0, E9)
           isBest == onGrid # {} /\ \E k \in onGrid : Best(k)
       IN  /\ (IF SurelyZero THEN Cover(CvZero) /\ Check(l, <<15>>, what \o " of a cylinder is at zero angle", 0, isZero)
               ELSE IF SurelyGrid THEN Cover(CvSearch) /\ Check(l, <<15>>, what \o " is the optimum of the searched grid", 0, isBest)
               ELSE Check(l, <<15>>, what \o " is the optimum or zero", 0, isZero \/ isBest))
           /\ Check(l, <<15>>, what \o ": lift and drag are the airfoil's own", 0, CloseTo(cl, e.own[1], R1, E9) /\ CloseTo(cd, e.own[2], R1, E9))
           /\ Check(l, <<15>>, what \o ": efficiency is lift over drag", 0, CloseTo(eff (.) cd, cl, RMax(RAbs(cl), RLit("1e-3")), RLit("1e-8")))

Init == l = 1 /\ tab = <<>> /\ InitCounters
E == Trace[l]
Build == E.op = "Build" /\ tab' = E /\ BuildClauses(E) = TRUE
Other == /\ E.op # "Build" /\ UNCHANGED tab
         /\ (CASE E.op = "Fit" -> FitClauses(E) [] E.op = "Smooth" -> SmoothClauses(E) [] E.op = "Deriv" -> DerivClauses(E) [] E.op = "Indep" -> IndepClauses(E)
               [] E.op = "Ask" -> AskClauses(E) [] E.op = "MaxEff" -> PointClauses("best efficiency", E) [] E.op = "Stall" -> PointClauses("stall margin", E)
               [] OTHER -> TRUE) = TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Build \/ Other)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
