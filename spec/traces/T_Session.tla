----------------------------- MODULE T_Session -----------------------------
(* Validation of recorded histories of analyses on several rotor objects.    *)
(* State: the configuration and the last design of every object, the results *)
(* returned so far by key, and the digest of every returned object.          *)
EXTENDS TraceChecks, IEEE, SessionAlgebra

VARIABLES l, obj, memo, dig, first

CvRepeat == 63  CvTwin == 64  CvBatch == 65  CvDesigned == 66  CvRecheck == 67  CvDerivs == 68  CvAlone == 71

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SameValues(a, b) == /\ DOMAIN a = DOMAIN b
                    /\ \A n \in DOMAIN a : /\ Len(a[n]) = Len(b[n])
                                           /\ LET s == RMaxAbs(a[n]) IN \A i \in 1..Len(a[n]) : Close(a[n][i], b[n][i], s)

Init == l = 1 /\ obj = <<>> /\ memo = <<>> /\ dig = <<>> /\ first = 0 /\ InitCounters

\* a new session: nothing known
Start == /\ Trace[l].op = "Start"
         /\ obj' = <<>> /\ memo' = <<>> /\ dig' = <<>> /\ first' = l
New == /\ Trace[l].op = "New"
       /\ LET e == Trace[l] IN
          /\ Check(l, <<8, 11>>, "construction returns", e.err, e.err = "")
          /\ Check(l, <<8>>, "construction does not modify its arguments", e.id, e.bef = e.aft)
          /\ obj' = Put(obj, e.id, [cfg |-> e.cid, design |-> NoDesign, derivs |-> e.derivs])
       /\ UNCHANGED <<memo, dig, first>>

Key(e, j) ==
    LET o == obj[e.id]
        c == <<e.cond[j]>>
    IN  CASE e.kind = "section" -> SectionKey(o.cfg, o.design, c)
          [] e.kind = "inverse" -> InverseKey(o.cfg, c)
          [] e.kind = "evaluate" -> EvalKey(o.cfg, o.design, c)
          [] e.kind = "coefficients" -> CoefKey(o.cfg, o.design, c)
          [] OTHER -> <<e.kind, o.cfg, o.design, e.cond>>
\* the parts of a result: one per condition; Jacobians and airfoil data are one part
Parts(e) == Len(e.parts)
CallClauses(e) ==
    /\ Check(l, <<8>>, "call returns", e.err, e.err = "")
    /\ Check(l, <<8>>, "the arrays passed in are not modified", e.kind, e.bef = e.aft)
    /\ \A j \in 1..Parts(e) :
         LET k == Key(e, j) IN
         k \notin DOMAIN memo \/
           LET m == memo[k] IN
           /\ Cover(CvRepeat)
           /\ IF m.id = e.id THEN TRUE ELSE Cover(CvTwin)
           /\ IF e.id < 100 THEN TRUE ELSE Cover(CvAlone)
           /\ IF m.batch = Parts(e) THEN TRUE ELSE Cover(CvBatch)
           /\ IF obj[e.id].design # NoDesign THEN Cover(CvDesigned) ELSE TRUE
           /\ IF m.derivs # obj[e.id].derivs
              THEN Cover(CvDerivs) /\ Check(l, <<8, 11>>, "same result with and without derivatives", <<e.kind, m.line>>, SameValues(m.v, e.parts[j]))
              ELSE Check(l, <<8>>, "same result as the same call before", <<e.kind, m.line>>, SameValues(m.v, e.parts[j]))
RECURSIVE Learn(_, _, _)
Learn(f, e, j) == IF j > Parts(e) THEN f
                  ELSE LET k == Key(e, j) IN
                       Learn(IF k \in DOMAIN f THEN f
                             ELSE Put(f, k, [v |-> e.parts[j], id |-> e.id, batch |-> Parts(e), line |-> l, derivs |-> obj[e.id].derivs]), e, j + 1)
Call == /\ Trace[l].op = "Call"
        /\ LET e == Trace[l] IN
           /\ CallClauses(e) = TRUE
           /\ memo' = IF e.err = "" THEN Learn(memo, e, 1) ELSE memo
           /\ dig' = Put(dig, e.n, e.dig)
           /\ obj' = IF e.kind = "inverse" THEN [obj EXCEPT ![e.id].design = <<e.cond[1]>>] ELSE obj
        /\ UNCHANGED first
\* the objects returned by an earlier call, looked at again
Recheck == /\ Trace[l].op = "Recheck"
           /\ Cover(CvRecheck)
           /\ Check(l, <<8>>, "returned results do not change later", Trace[l].n, dig[Trace[l].n] = Trace[l].dig) = TRUE
           /\ UNCHANGED <<obj, memo, dig, first>>
End == Trace[l].op = "End" /\ UNCHANGED <<obj, memo, dig, first>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Start \/ New \/ Call \/ Recheck \/ End)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
