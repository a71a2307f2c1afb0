------------------------------ MODULE M_Session ------------------------------
(* The rotor objects at the granularity of their inner steps: every analysis  *)
(* first stores its pitch in the object, then computes sector by sector with  *)
(* the stored pitch and twist, accumulates in a buffer of its own and returns *)
(* it. Histories of whole calls on rotors that share airfoils and arrays.     *)
(* Completed histories are the scenarios replayed on the code.                *)
EXTENDS SessionAlgebra, TLC, Json, IOUtils, FiniteSets

CONSTANTS Rotors, MaxCalls, Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
NSec == 2

\* rotors 1 and 3 have equal configurations, rotor 2 another one
Cfg(r) == IF r = 3 THEN 1 ELSE r
Conds == 1..3                 \* condition 3 is a parked one
Calls == {[op |-> "section", cond |-> <<c>>, coef |-> FALSE] : c \in Conds}
    \cup {[op |-> "evaluate", cond |-> <<c>>, coef |-> c = 1] : c \in {1, 2}}
    \cup {[op |-> "evaluate", cond |-> s, coef |-> k] : s \in {<<1, 2>>, <<3, 1, 2>>}, k \in {FALSE, TRUE}}
    \cup {[op |-> "inverse", cond |-> <<2>>, coef |-> FALSE], [op |-> "airfoil", cond |-> <<1>>, coef |-> FALSE]}

VARIABLES obj,     \* rotor -> [pitch, design]
          run,     \* the call in progress, or NoRun
          outs,    \* results returned so far (one record per call)
          hist     \* calls made so far
vars == <<obj, run, outs, hist>>
NoRun == [r |-> 0, c |-> [op |-> "none", cond |-> <<>>, coef |-> FALSE], i |-> 0, k |-> 0, buf |-> <<>>]

Init == /\ obj = [r \in Rotors |-> [pitch |-> 0, design |-> NoDesign]]
        /\ run = NoRun /\ outs = <<>> /\ hist = <<>>

\* the load of one sector: what the object holds decides
Load(r, cond, sector) == <<Cfg(r), obj[r].design, obj[r].pitch, cond, sector>>

Begin(r, c) ==
    /\ run = NoRun /\ Len(hist) < MaxCalls
    /\ run' = [r |-> r, c |-> c, i |-> 1, k |-> 0, buf |-> <<>>]
    /\ hist' = Append(hist, [r |-> r, c |-> c])
    /\ UNCHANGED <<obj, outs>>
\* one condition: store the pitch
StorePitch ==
    /\ run # NoRun /\ run.c.op # "airfoil" /\ run.i <= Len(run.c.cond) /\ run.k = 0
    /\ obj' = [obj EXCEPT ![run.r].pitch = run.c.cond[run.i],
                          ![run.r].design = IF run.c.op = "inverse" THEN <<run.c.cond[run.i]>> ELSE @]
    /\ run' = [run EXCEPT !.k = 1]
    /\ UNCHANGED <<outs, hist>>
Sector ==
    /\ run # NoRun /\ run.c.op # "airfoil" /\ run.i <= Len(run.c.cond) /\ run.k > 0
    /\ LET n == IF run.c.op = "evaluate" THEN NSec ELSE 1
           b == IF run.k = 1 THEN Append(run.buf, <<>>) ELSE run.buf
       IN run' = [run EXCEPT !.buf = [b EXCEPT ![run.i] = Append(@, Load(run.r, run.c.cond[run.i], run.k))],
                             !.k = IF run.k = n THEN 0 ELSE run.k + 1,
                             !.i = IF run.k = n THEN run.i + 1 ELSE run.i]
    /\ UNCHANGED <<obj, outs, hist>>
Return ==
    /\ run # NoRun /\ (run.c.op = "airfoil" \/ run.i > Len(run.c.cond))
    /\ outs' = Append(outs, run.buf) /\ run' = NoRun
    /\ UNCHANGED <<obj, hist>>
    /\ (IF Len(hist) < MaxCalls \/ (Len(ToString(hist)) + Cardinality({i \in 1..Len(hist) : hist[i].c.coef}) * 7 + hist[1].r * 3
            + hist[Len(hist)].r * 5 + Seed) % Every # 0 THEN TRUE
        ELSE PrintT("SCENARIO " \o ToJson([hist |-> hist])))
Next == (\E r \in Rotors, c \in Calls : Begin(r, c)) \/ StorePitch \/ Sector \/ Return

\* ---- properties ----------------------------------------------------------------
\* the design an object has before its i-th call
RECURSIVE DesignBefore(_, _)
DesignBefore(i, r) == IF i = 1 THEN NoDesign
                      ELSE IF hist[i - 1].r = r /\ hist[i - 1].c.op = "inverse" THEN <<hist[i - 1].c.cond[1]>>
                      ELSE DesignBefore(i - 1, r)
DesignFor(i) == IF hist[i].c.op = "inverse" THEN <<hist[i].c.cond[1]>> ELSE DesignBefore(i, hist[i].r)
PureLoad(i, j, k) == <<Cfg(hist[i].r), DesignFor(i), hist[i].c.cond[j], hist[i].c.cond[j], k>>
\* C08: every returned result is determined by the configuration, the twist and the arguments of the call
Pure == \A i \in 1..Len(outs) : hist[i].c.op # "airfoil" =>
          /\ Len(outs[i]) = Len(hist[i].c.cond)
          /\ \A j \in 1..Len(outs[i]) : \A k \in 1..Len(outs[i][j]) : outs[i][j][k] = PureLoad(i, j, k)
\* C08: results stay what they were
Stable == [][\A i \in 1..Len(outs) : i <= Len(outs') /\ outs'[i] = outs[i]]_vars
=============================================================================
