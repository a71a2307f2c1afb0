------------------------------- MODULE M_Polar -------------------------------
(* Airfoils as lists of polars, in exact integer arithmetic: angles 0..4,     *)
(* Reynolds numbers 1..3, coefficient values scaled by S so that two nested   *)
(* interpolations and quarter weights stay integers. Every operation on every   *)
(* small configuration is explored; configurations are the scenarios.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
S == 2304
Grids == {{0, 1, 2, 3, 4}, {0, 2, 4}, {0, 4}, {1, 2, 3}, {0, 1, 3}, {1, 4}}
Lt(a, b) == a < b
Up(g) == SetToSortSeq(g, Lt)
\* a coefficient that is not linear in the angle and differs between polars
Value(a, r) == S * (((a * a * (2 + r)) % 7) + r)
Mk(g, r) == [re |-> 4 * r, al |-> Up(g), cl |-> [k \in 1..Cardinality(g) |-> Value(Up(g)[k], r)]]
Exact(n, d) == IF n % d = 0 THEN n \div d ELSE Assert(FALSE, "scale")
MinA(s) == s[1]
MaxA(s) == s[Len(s)]
At(p, x) == IF x <= MinA(p.al) THEN p.cl[1] ELSE IF x >= MaxA(p.al) THEN p.cl[Len(p.al)]
            ELSE LET j == CHOOSE i \in 1..(Len(p.al) - 1) : p.al[i] <= x /\ x < p.al[i + 1]
                 IN Exact(p.cl[j] * (p.al[j + 1] - x) + p.cl[j + 1] * (x - p.al[j]), p.al[j + 1] - p.al[j])
\* weight w in quarters
RePart(p, q, w) == Exact((4 - w) * p.re + w * q.re, 4)
Blend(p, q, w) ==
    LET lo == IF MinA(p.al) > MinA(q.al) THEN MinA(p.al) ELSE MinA(q.al)
        hi == IF MaxA(p.al) < MaxA(q.al) THEN MaxA(p.al) ELSE MaxA(q.al)
        al == Up({x \in Range(p.al) \cup Range(q.al) : lo <= x /\ x <= hi})
    IN  [re |-> RePart(p, q, w), al |-> al, cl |-> [k \in 1..Len(al) |-> Exact((4 - w) * At(p, al[k]) + w * At(q, al[k]), 4)]]
SortRe(ps) == SortSeq(ps, LAMBDA a, b : a.re < b.re)
Get(af, re) == IF re <= af[1].re THEN af[1] ELSE IF re >= af[Len(af)].re THEN af[Len(af)]
               ELSE IF \E i \in 1..Len(af) : af[i].re = re THEN af[CHOOSE i \in 1..Len(af) : af[i].re = re]
               ELSE LET i == CHOOSE j \in 1..(Len(af) - 1) : af[j].re < re /\ re < af[j + 1].re
                        w2 == 4 * (re - af[i].re)
                    IN Blend(af[i], af[i + 1], Exact(w2, af[i + 1].re - af[i].re))
BlendAf(a, b, w) == LET res == Up({a[i].re : i \in 1..Len(a)} \cup {b[i].re : i \in 1..Len(b)})
                    IN [k \in 1..Len(res) |-> Blend(Get(a, res[k]), Get(b, res[k]), w)]
Common(af) == LET al == Up(UNION {Range(af[i].al) : i \in 1..Len(af)})
              IN [i \in 1..Len(af) |-> [re |-> af[i].re, al |-> al, cl |-> [k \in 1..Len(al) |-> At(af[i], al[k])]]]

VARIABLES given, af, other, op, res
vars == <<given, af, other, op, res>>
None == [name |-> "", w |-> 0, re |-> 0]
Mks(gs, rs) == [i \in 1..Len(gs) |-> Mk(gs[i], rs[i])]
Orders(n) == IF n = 1 THEN {<<1>>, <<2>>} ELSE IF n = 2 THEN {<<1, 2>>, <<2, 1>>, <<3, 1>>} ELSE {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}
Init == /\ \E n \in 1..3 : \E rs \in Orders(n) : \E g1 \in Grids : \E g2 \in Grids :
             given = Mks([i \in 1..n |-> IF i = 2 THEN g2 ELSE g1], rs)
        /\ af = <<>> /\ op = None /\ res = <<>>
        /\ other \in {Mks(<<{0, 1, 2, 3, 4}>>, <<2>>), Mks(<<{0, 2, 4}, {1, 2, 3}>>, <<1, 3>>)}
Construct == /\ af = <<>> /\ af' = SortRe(given) /\ UNCHANGED <<given, other, op, res>>
Sc(name, w, re) == [name |-> name, w |-> w, re |-> re, given |-> [i \in 1..Len(given) |-> [re |-> given[i].re \div 4, al |-> given[i].al]],
                    other |-> [i \in 1..Len(other) |-> [re |-> other[i].re \div 4, al |-> other[i].al]]]
Do(name, w, re) ==
    /\ af # <<>> /\ op = None
    /\ op' = [name |-> name, w |-> w, re |-> re]
    /\ res' = CASE name = "get" -> <<Get(af, re)>>
                [] name = "blend" -> <<Blend(af[1], other[1], w)>>
                [] name = "blendaf" -> BlendAf(af, other, w)
                [] OTHER -> Common(af)
    /\ UNCHANGED <<given, af, other>>
    /\ (IF (Len(ToString(given)) + 3 * w + 5 * re + Seed) % Every # 0 THEN TRUE ELSE PrintT("SCENARIO " \o ToJson(Sc(name, w, re))))
Next == \/ Construct
        \/ \E re \in {2, 4, 6, 8, 10, 12, 14} : Do("get", 0, re)
        \/ \E w \in {0, 1, 2, 4} : Do("blend", w, 0) \/ Do("blendaf", w, 0)
        \/ Do("common", 0, 0)

\* ---- properties (C16, C17) ---------------------------------------------------
Sorted == \A i \in 1..(Len(af) - 1) : af[i].re < af[i + 1].re
Perm == af # <<>> => {given[i] : i \in 1..Len(given)} = {af[i] : i \in 1..Len(af)}
OnGrid(r, p) == \A k \in 1..Len(r.al) : r.cl[k] = At(p, r.al[k])
EndWeights == (op.name = "blend" /\ op.w = 0 => OnGrid(res[1], af[1])) /\ (op.name = "blend" /\ op.w = 4 => OnGrid(res[1], other[1]))
Between == op.name = "blend" => \A k \in 1..Len(res[1].al) : LET a == At(af[1], res[1].al[k])  b == At(other[1], res[1].al[k])  c == res[1].cl[k]
                                                            IN (a <= c /\ c <= b) \/ (b <= c /\ c <= a)
Tabulated == op.name = "get" => \A i \in 1..Len(af) : af[i].re = op.re => res = <<af[i]>>
Outside == op.name = "get" => (op.re < af[1].re => res = <<af[1]>>) /\ (op.re > af[Len(af)].re => res = <<af[Len(af)]>>)
AllRe == op.name = "blendaf" => {res[i].re : i \in 1..Len(res)} \subseteq 4..12 /\ Len(res) >= Len(af) /\ Len(res) >= Len(other)
         /\ (op.w = 0 => \A i \in 1..Len(res) : OnGrid(res[i], Get(af, res[i].re)) \/ res[i].re # Get(af, res[i].re).re)
Gridded == op.name = "common" => /\ Len(res) = Len(af)
                                 /\ \A i \in 1..Len(af) : res[i].re = af[i].re /\ Range(af[i].al) \subseteq Range(res[i].al) /\ res[i].al = res[1].al
                                       /\ \A k \in 1..Len(af[i].al) : At(res[i], af[i].al[k]) = af[i].cl[k]
Increasing == \A i \in 1..Len(res) : \A k \in 1..(Len(res[i].al) - 1) : res[i].al[k] < res[i].al[k + 1]
=============================================================================
