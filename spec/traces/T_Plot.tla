------------------------------- MODULE T_Plot --------------------------------
(* Validation of recorded plots (C31): figs is the list of all open figures.  *)
EXTENDS TraceChecks, IEEE
VARIABLES l, af, figs
CvSeveral == 117  CvMine == 118  CvAgain == 119
SameSeq(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(v) : REq(u[k], v[k])
Cols == <<"cl", "cd", "cm">>
YLabel == [cl |-> "lift coefficient", cd |-> "drag coefficient", cm |-> "moment coefficient"]
\* the polars whose curves figure k of the call shows, and the column shown
Shown(e, k) == CASE e.do = "polar" -> <<e.i>> [] e.do = "single" -> [i \in 1..Len(af) |-> i] [] OTHER -> <<((k - 1) \div 3) + 1>>
Col(k) == Cols[((k - 1) % 3) + 1]
Count(e) == IF e.do = "multi" THEN 3 * Len(af) ELSE 3
IsCurve(c, p, f) == SameSeq(c.x, p.al) /\ SameSeq(c.y, p[f])
PlotClauses(e) ==
    /\ Check(l, <<31>>, "plot returns", <<e.do, e.err>>, e.err = "")
    /\ Check(l, <<31>>, "polars are unchanged by plotting", e.do, e.same)
    /\ Check(l, <<31>>, "figures already open are left alone", e.do, Len(figs) <= Len(e.figs) /\ SubSeq(e.figs, 1, Len(figs)) = figs)
    /\ (IF e.do = "user" THEN Cover(CvMine) ELSE TRUE)
    /\ e.err # "" \/ e.do = "user" \/
       /\ (IF Len(figs) > 0 THEN Cover(CvAgain) ELSE TRUE)
       /\ Check(l, <<31>>, "number of figures returned", <<e.do, Len(e.ret)>>, Len(e.ret) = Count(e))
       /\ Check(l, <<31>>, "all figures opened are returned", e.do, {e.ret[k] : k \in 1..Len(e.ret)} = (Len(figs) + 1)..Len(e.figs))
       /\ Len(e.ret) # Count(e) \/ \A k \in 1..Count(e) :
            LET g == e.figs[e.ret[k]]
                P == Shown(e, k)
                f == Col(k)
            IN  /\ (IF Len(P) > 1 THEN Cover(CvSeveral) ELSE TRUE)
                /\ Check(l, <<31>>, "number of curves in a figure", <<e.do, f>>, Len(g.curves) = Len(P) /\ g.axes = 1)
                /\ Len(g.curves) # Len(P) \/ \A i \in 1..Len(P) :
                     /\ Check(l, <<31>>, "curve of the polar", <<e.do, f, i>>, IsCurve(g.curves[i], af[P[i]], f))
                     /\ Check(l, <<31>>, "curve is labelled with the Reynolds number", g.curves[i].label, g.curves[i].label = "Re = " \o af[P[i]].mil \o " million")
                /\ Check(l, <<31>>, "axes are labelled", <<g.xl, g.yl>>, g.xl = "angle of attack (deg)" /\ g.yl = YLabel[f])
Init == l = 1 /\ af = <<>> /\ figs = <<>> /\ InitCounters
E == Trace[l]
Start == E.op = "Start" /\ af' = E.af /\ figs' = <<>>
Plot == E.op = "Plot" /\ UNCHANGED af /\ figs' = E.figs /\ PlotClauses(E) = TRUE
End == E.op = "End" /\ UNCHANGED <<af, figs>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Start \/ Plot \/ End)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
