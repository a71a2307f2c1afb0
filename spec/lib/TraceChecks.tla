---------------------------- MODULE TraceChecks ----------------------------
(* Reading a recorded trace and reporting total verdicts on it.              *)
(* A trace is a file of one JSON record per public call of the code under    *)
(* test. Clause evaluations are counted per property in TLC registers; a     *)
(* false clause is printed and validation goes on.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Has(e, f) == f \in DOMAIN e

Bump(n) == TLCSet(n, TLCGet(n) + 1)
\* ids: sequence of property numbers the clause belongs to
RECURSIVE BumpAll(_, _)
BumpAll(ids, i) == IF i > Len(ids) THEN TRUE ELSE Bump(ids[i]) /\ BumpAll(ids, i + 1)
Check(l, ids, name, ctx, b) ==
    /\ BumpAll(ids, 1)
    /\ IF b THEN TRUE ELSE PrintT(<<"FAIL", l, ids, name, ctx>>)
\* a clause that is a listed known finding of the property `id`
Known(l, id, name, ctx) == PrintT(<<"KNOWN", l, id, name, ctx>>)
\* coverage of the kinds of situation met, printed at the end
Cover(n) == Bump(n)
InitCounters == \A n \in 1..199 : TLCSet(n, 0)
PrintCounters == \A n \in 1..199 : TLCGet(n) = 0 \/ PrintT(<<"COUNT", n, TLCGet(n)>>)
=============================================================================
