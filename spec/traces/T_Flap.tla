------------------------------- MODULE T_Flap -------------------------------
(* Validation of recorded flap-coordinate runs of one or two processes. State:*)
(* the files of the working directory with the process that made them, and    *)
(* what the external program of each process was given and produced.          *)
EXTENDS TraceChecks, IEEE

VARIABLES l, fs, owner, run

CvBoth == 111  CvFailed == 112  CvAfterKill == 113  CvLeft == 114  CvTurns == 115  CvSameProc == 116

Idle == [on |-> FALSE, before |-> {}, out |-> [x |-> <<>>, y |-> <<>>], wrote |-> FALSE, bad |-> FALSE, ran |-> FALSE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == l = 1 /\ fs = <<>> /\ owner = <<>> /\ run = <<Idle, Idle>> /\ InitCounters
Start == /\ Trace[l].op = "Start"
         /\ fs' = Trace[l].files /\ owner' = [f \in DOMAIN Trace[l].files |-> 0] /\ run' = <<Idle, Idle>>
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Within(a[i], b[i], tol)
Col(c, k) == [i \in 1..Len(c) |-> c[i][k]]
Clauses(e) ==
    LET o == run[e.p]
        q == run[3 - e.p]
    IN
    /\ Check(l, <<27>>, "the run goes on as asked", <<e.w, e.got, e.err>>, e.got = e.w)
    \* files of the other process and of nobody stay as they are
    /\ \A f \in DOMAIN fs : owner[f] = e.p \/ Check(l, <<27>>, "no files but its own are touched", <<e.w, f>>, f \in DOMAIN e.files /\ e.files[f] = fs[f])
    /\ (IF q.on THEN Cover(CvBoth) ELSE TRUE)
    /\ e.got # e.w \/
       CASE e.w = "started" -> (IF \E f \in DOMAIN fs : owner[f] = e.p THEN Cover(CvLeft) ELSE TRUE) /\ (IF o.ran THEN Cover(CvSameProc) ELSE TRUE)
         [] e.w = "loaded" -> /\ Check(l, <<27>>, "the external program gets the profile", 0, Near(Col(e.coords, 1), e.want.x, RLit("0.6e-6")) /\ Near(Col(e.coords, 2), e.want.y, RLit("0.6e-6")))
         [] e.w = "saved" ->
              /\ Check(l, <<27>>, "hinge and deflection", e.mode, e.mode = "yt" /\ Len(e.flap) = 3 /\ REq(e.flap[1], e.want.xc) /\ REq(e.flap[2], e.want.yt) /\ REq(e.flap[3], e.want.delta))
              /\ Check(l, <<27>>, "number of nodes", e.n, e.n = e.want.n)
              /\ Check(l, <<27>>, "the external program can write its result", e.kind, e.wrote = (e.kind # "silent"))
         [] e.w = "end" ->
              IF e.kind = "silent" THEN Cover(CvFailed) /\ Check(l, <<27>>, "a run without a result fails", e.err, e.err # "")
              ELSE /\ Check(l, <<27>>, "the run returns", e.err, e.err = "")
                   /\ e.err # "" \/
                      /\ Check(l, <<27>>, "the coordinates of this run", 0, e.x = o.out.x /\ e.y = o.out.y)
                      /\ Check(l, <<27>>, "deflection kept", 0, REq(e.ctrl, e.want.delta))
                      /\ \A f \in DOMAIN e.files : Check(l, <<27>>, "temporary files are removed", f, f \in o.before \/ (f \in DOMAIN owner /\ owner[f] = 3 - e.p))
                      /\ (IF q.on THEN Cover(CvTurns) ELSE TRUE)
         [] e.w = "killed" -> Cover(CvAfterKill)
Step == /\ Trace[l].op = "Step"
        /\ LET e == Trace[l] IN
           /\ Clauses(e) = TRUE
           /\ fs' = e.files
           /\ owner' = [f \in DOMAIN e.files |-> IF f \in DOMAIN owner /\ f \in DOMAIN fs THEN owner[f] ELSE e.p]
           /\ run' = [run EXCEPT ![e.p] = CASE e.got = "started" -> [Idle EXCEPT !.on = TRUE, !.before = DOMAIN fs, !.ran = TRUE]
                                            [] e.got = "saved" -> [@ EXCEPT !.out = e.out]
                                            [] e.got \in {"end", "killed"} -> [@ EXCEPT !.on = FALSE]
                                            [] OTHER -> @]
End == Trace[l].op = "End" /\ UNCHANGED <<fs, owner, run>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Start \/ Step \/ End)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) /\ PrintCounters
=============================================================================
