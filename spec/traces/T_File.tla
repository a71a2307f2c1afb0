------------------------------- MODULE T_File -------------------------------
(* Validation of recorded file operations and preprocessor commands (C20,     *)
(* C28). A line of a file is recorded as its leading numbers and whether it   *)
(* holds the end-of-table mark; the reader of models/M_File parses them here. *)
EXTENDS TraceChecks, Polars
VARIABLES l
CvDamaged == 93  CvTables == 94  CvNoMoments == 95  CvDefault == 96  CvInPlace == 97  CvPipeline == 98  CvCommon == 99  CvPlotted == 120
E9 == RLit("1e-9")
Digits == RLit("5.01e-7")

\* ---- parsing ---------------------------------------------------------------------------
HasNum(ls, k, m) == k <= Len(ls) /\ Len(ls[k].n) >= m
RECURSIVE EotFrom(_, _)
\* the first end-of-table line at or after k
EotFrom(ls, k) == IF k > Len(ls) THEN 0 ELSE IF ls[k].eot THEN k ELSE EotFrom(ls, k + 1)
RECURSIVE ParseTables(_, _, _, _)
ParseTables(ls, k, left, acc) ==
    IF left = 0 THEN [ok |-> TRUE, af |-> acc]
    ELSE LET z == EotFrom(ls, k + 9)
         IN  IF z = 0 \/ (\E j \in k..(k + 8) : ~HasNum(ls, j, 1)) \/ (\E j \in (k + 9)..(z - 1) : ~HasNum(ls, j, 4)) THEN [ok |-> FALSE, af |-> acc]
             ELSE LET col(c) == Vec([j \in 1..(z - k - 9) |-> ls[k + 8 + j].n[c]])
                  IN ParseTables(ls, z + 1, left - 1, Append(acc, [Re |-> ls[k].n[1] (.) RLit("1e6"), al |-> col(1), cl |-> col(2), cd |-> col(3), cm |-> col(4),
                                                                 par |-> [j \in 1..8 |-> ls[k + j].n[1]]]))
Parse(ls) == IF ~HasNum(ls, 4, 1) THEN [ok |-> FALSE, af |-> <<>>] ELSE ParseTables(ls, 5, RTrunc(ls[4].n[1]), <<>>)
SortedAf(af) == SortSeq(af, LAMBDA a, b : a.Re \prec b.Re)

\* ---- comparison up to the printed digits ---------------------------------------------------
SameSeq(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(v) : REq(u[k], v[k])
SamePolar(r, x) == REq(r.Re, x.Re) /\ SameSeq(r.al, x.al) /\ \A f \in Cols : SameSeq(r[f], x[f])
\* rows of r stand for the rows of x and the other way round (angles equal up to rounding may be one or two rows)
Tol(v) == Digits (+) (RMaxAbs(v) (.) E9)
RowsMatch(r, x) ==
    LET t == [f \in Cols |-> Tol(x[f])]
        ok(k, j) == Within(r.al[k], x.al[j], RLit("6e-7")) /\ \A f \in Cols : Within(r[f][k], x[f][j], t[f])
        near(S, T, k, n) == {j \in (k - 2)..(k + 2) : 1 <= j /\ j <= n}
    IN  IF Len(r.al) = Len(x.al) THEN \A k \in 1..Len(x.al) : ok(k, k)
        ELSE (\A k \in 1..Len(r.al) : \E j \in 1..Len(x.al) : ok(k, j)) /\ (\A j \in 1..Len(x.al) : \E k \in 1..Len(r.al) : ok(k, j))
Printed(r, x) == Within(r.Re, x.Re, RLit("0.51")) /\ RowsMatch(r, x) /\ \A k \in 1..(Len(r.al) - 1) : r.al[k] \preceq r.al[k + 1]
FileClauses(ids, what, ls, af) ==
    LET f == Parse(ls)
    IN  /\ Check(l, ids, "well-formed file: " \o what, Len(ls), f.ok)
        /\ ~f.ok \/
           /\ Check(l, ids, "number of tables: " \o what, <<Len(f.af), Len(af)>>, Len(f.af) = Len(af))
           /\ Check(l, ids, "tables on one set of angles: " \o what, 0, \A i \in 1..Len(f.af) : SameSeq(f.af[i].al, f.af[1].al))
           /\ Check(l, ids, "tables in ascending Reynolds order: " \o what, 0, \A i \in 1..(Len(f.af) - 1) : f.af[i].Re \preceq f.af[i + 1].Re)
           /\ Len(f.af) # Len(af) \/
              /\ \A i \in 1..Len(af) : Check(l, ids, "every table: " \o what, i, \E j \in 1..Len(af) : Printed(f.af[j], af[i]))
              /\ \A j \in 1..Len(af) : Check(l, ids, "only these tables: " \o what, j, \E i \in 1..Len(af) : Printed(f.af[j], af[i]))
           /\ \A i \in 1..Len(f.af) : Check(l, ids, "least drag in the header: " \o what, i, Len(f.af[i].al) < 10 \/ (\A k \in 1..8 : REq(f.af[i].par[k], R0)) \/
                    ((\A k \in 1..Len(f.af[i].cd) : f.af[i].par[8] \preceq f.af[i].cd[k]) /\ \E k \in 1..Len(f.af[i].cd) : REq(f.af[i].par[8], f.af[i].cd[k])))
OneGrid(af) == Common(af, AllAngles(af))

ReadClauses(e) ==
    LET f == TLCEval(Parse(e.lines))
        x == SortedAf(f.af)
    IN  /\ Check(l, <<20>>, "reading leaves the file unchanged", 0, e.same)
        /\ IF ~f.ok THEN Cover(CvDamaged) /\ Check(l, <<20>>, "damaged file is refused", Len(e.lines), e.err # "")
           ELSE /\ Check(l, <<20>>, "reading returns", e.err, e.err = "")
                /\ e.err # "" \/
                   /\ Check(l, <<20>>, "all tables are read", <<Len(e.r), Len(x)>>, Len(e.r) = Len(x))
                   /\ Len(e.r) # Len(x) \/ \A i \in 1..Len(x) : Check(l, <<20>>, "every table is read as it is", i, \E j \in 1..Len(x) : SamePolar(e.r[i], x[j]))
                   /\ (IF Len(x) > 1 THEN Cover(CvTables) ELSE TRUE)
WriteClauses(e) ==
    /\ Check(l, <<20>>, "writing returns", e.err, e.err = "")
    /\ e.err # "" \/
       LET x == TLCEval(OneGrid(e.af))
           f == Parse(e.lines)
           b == e.back
       IN  /\ Check(l, <<20>>, "writing changes nothing else", 0, e.same)
           /\ FileClauses(<<20>>, "written", e.lines, x)
           /\ Check(l, <<20>>, "reading back returns", b.err, b.err = "")
           /\ b.err # "" \/ ~f.ok \/ Check(l, <<20>>, "reading back gives the file", 0, Len(b.r) = Len(f.af) /\ \A i \in 1..Len(b.r) : \E j \in 1..Len(b.r) : SamePolar(b.r[i], f.af[j]))
           /\ b.err # "" \/ Check(l, <<20>>, "round trip", 0, Len(b.r) = Len(x) /\ \A i \in 1..Len(x) : \E j \in 1..Len(x) : Printed(b.r[j], x[i]))
           /\ ~f.ok \/ Len(f.af) # Len(e.par) \/ \A i \in 1..Len(e.par) : \A k \in 1..8 :
                 Check(l, <<20>>, "unsteady parameters in the header", <<i, k>>, Within(f.af[i].par[k], e.par[i][k], Digits))
           /\ (IF Len(x) > 1 THEN Cover(CvTables) ELSE TRUE)
           /\ (IF \A i \in 1..Len(x) : \A k \in 1..Len(x[i].cm) : REq(x[i].cm[k], R0) THEN Cover(CvNoMoments) ELSE TRUE)
\* an airfoil model read from a file is the one built from the tables of the file
TableClauses(e) == /\ Check(l, <<20>>, "airfoil model from a file", <<e.err, e.want>>, (e.err = "") = (e.want = ""))
                   /\ e.err # "" \/ e.want # "" \/ Check(l, <<20>>, "airfoil model from a file gives the coefficients of its tables", 0, SameSeq(e.v, e.w))

\* ---- preprocessor commands -----------------------------------------------------------------
Name(nm) == nm[1] \o nm[2] \o nm[3]
Target(e) == CASE e.out = "given" -> e.given
               [] e.out = "inplace" -> Name(e.src)
               [] e.cmd = "stall3D" -> Name(<<e.src[1], e.src[2] \o "_3D", e.src[3]>>)
               [] e.cmd = "extrap" -> Name(<<e.src[1], e.src[2] \o "_extrap", e.src[3]>>)
               [] OTHER -> Name(<<e.src[1], e.src[2] \o "+" \o e.other[2] \o "_blend" \o e.wtext, e.other[3]>>)
Result(e, a, b) == CASE e.cmd = "stall3D" -> [i \in 1..Len(a) |-> Correct3D(a[i], [rR |-> e.a[1], cr |-> e.a[2], tsr |-> e.a[3], amax |-> RInt(30), lmin |-> RInt(-5), lmax |-> RInt(5)])]
                     [] e.cmd = "extrap" -> [i \in 1..Len(a) |-> Extrapolate(a[i], [cdmax |-> e.a[1], useAR |-> FALSE, AR |-> R0, cdmin |-> RLit("0.001"), n |-> 15])]
                     [] OTHER -> BlendAirfoil(a, b, e.a[1])
\* the figures of a command (--plot): per polar lift, drag and (but for stall3D) moment, original and result, the figures shown once
CurveIs(c, al, y) ==
    LET t == Tol(y)
        ok(k, j) == Within(c.x[k], al[j], RLit("6e-7")) /\ Within(c.y[k], y[j], t)
        near(k, n) == {j \in (k - 2)..(k + 2) : 1 <= j /\ j <= n}
        n == Len(c.x)
        m == Len(al)
    IN  Len(c.y) = n /\ IF n = m THEN \A k \in 1..m : ok(k, k)
                        ELSE (\A k \in 1..n : \E j \in near(k, m) : ok(k, j)) /\ (\A j \in 1..m : \E k \in near(j, n) : ok(k, j))
PlotColumns(e) == IF e.cmd = "stall3D" THEN <<"cl", "cd">> ELSE <<"cl", "cd", "cm">>
Names(e) == IF e.cmd = "stall3D" THEN [orig |-> "2D", new |-> "3D"] ELSE [orig |-> "orig", new |-> "extrap"]
YLabel == [cl |-> "lift coefficient", cd |-> "drag coefficient", cm |-> "moment coefficient"]
FigureClauses(e, from, to) ==
    LET C == PlotColumns(e)
        m == Len(C)
    IN  /\ Check(l, <<28>>, "plots are shown once, and only if asked for", <<e.plot, Len(e.shown)>>, e.shown = (IF e.plot THEN <<Len(e.figs)>> ELSE <<>>))
        /\ Check(l, <<28>>, "number of figures", <<e.cmd, Len(e.figs)>>, Len(e.figs) = (IF e.plot THEN m * Len(to) ELSE 0))
        /\ ~e.plot \/ Len(e.figs) # m * Len(to) \/
           /\ Cover(CvPlotted)
           /\ \A i \in 1..Len(to) : \A k \in 1..m :
                LET g == e.figs[m * (i - 1) + k]
                IN  /\ Check(l, <<28>>, "axes are labelled", <<g.xl, g.yl>>, g.axes = 1 /\ g.xl = "angle of attack (deg)" /\ g.yl = YLabel[C[k]])
                    /\ Check(l, <<28>>, "number of curves", <<e.cmd, i, C[k], Len(g.curves)>>, Len(g.curves) = (IF e.cmd = "blend" THEN 1 ELSE 2))
                    /\ Check(l, <<28>>, "result is plotted", <<e.cmd, i, C[k]>>, 
                                \E c \in 1..Len(g.curves) : (e.cmd = "blend" \/ g.curves[c].label = Names(e).new) /\ CurveIs(g.curves[c], to[i].al, to[i][C[k]]))
                    /\ Check(l, <<28>>, "Reynolds number written into the figure", <<e.cmd, i, C[k]>>,
                             \A q \in 1..Len(g.re) : Within(g.re[q], to[i].Re (.) RLit("1e-6"), RLit("1e-9") (.) g.re[q]))
                    /\ e.cmd = "blend" \/ Check(l, <<28>>, "original is plotted", <<e.cmd, i, C[k]>>,
                                                  \E c \in 1..Len(g.curves) : g.curves[c].label = Names(e).orig /\ SameSeq(g.curves[c].x, from[i].al) /\ SameSeq(g.curves[c].y, from[i][C[k]]))
CliClauses(e) ==
    LET t == Target(e)
        a == TLCEval(Parse(e.before[Name(e.src)].lines))
        b == TLCEval(Parse(e.before[Name(e.other)].lines))
    IN  /\ Check(l, <<28>>, "command returns", <<e.cmd, e.err>>, e.err = "")
        /\ e.err # "" \/ ~a.ok \/ ~b.ok \/
           /\ Check(l, <<28>>, "only the output is written", <<e.cmd, t>>, DOMAIN e.after = DOMAIN e.before \cup {t})
           /\ \A f \in DOMAIN e.before : f = t \/ f \notin DOMAIN e.after \/ Check(l, <<28>>, "inputs and other files are unchanged", <<e.cmd, f>>, e.after[f].hash = e.before[f].hash)
           /\ LET r == TLCEval(Result(e, SortedAf(a.af), SortedAf(b.af)))
                  g == TLCEval(OneGrid(r))
              IN  /\ t \notin DOMAIN e.after \/ FileClauses(<<28>>, e.cmd, e.after[t].lines, g)
                  /\ FigureClauses(e, SortedAf(a.af), IF e.common THEN g ELSE r)
           /\ (IF e.out = "default" THEN Cover(CvDefault) ELSE IF e.out = "inplace" THEN Cover(CvInPlace) ELSE TRUE)
           /\ (IF e.step > 1 THEN Cover(CvPipeline) ELSE TRUE)
           /\ (IF e.common THEN Cover(CvCommon) ELSE TRUE)

Init == l = 1 /\ InitCounters
E == Trace[l]
Step == CASE E.op = "Read" -> ReadClauses(E) [] E.op = "Write" -> WriteClauses(E) [] E.op = "Table" -> TableClauses(E) [] E.op = "Cli" -> CliClauses(E) [] OTHER -> TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step = TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
