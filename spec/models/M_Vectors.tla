------------------------------ MODULE M_Vectors ------------------------------
(* Vector objects and what they share. A vector holds three component cells; *)
(* constructing one copies the components into fresh cells, in-place operators*)
(* write into the cells of their left operand only. Histories of operations   *)
(* are the scenarios.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS MaxOps, MaxVecs, Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
VARIABLES vec,    \* vector -> its cell (the three components together)
          cell,   \* cell -> content (a counter of the writes that made it)
          hist
vars == <<vec, cell, hist>>
Init == /\ vec = <<1, 2>> /\ cell = <<{<<0, 1>>}, {<<0, 2>>}>> /\ hist = <<>>
Pure1 == {"neg", "turn", "exchange", "copy"}
Pure2 == {"add", "sub", "mul", "div", "cross"}
PureS == {"adds", "subs", "muls", "divs"}
In2 == {"iadd", "isub", "imul"}
InS == {"iadds", "isubs", "imuls"}
Val(v) == cell[vec[v]]
Stamp(h, vs) == {<<Len(h) + 1, 0>>} \cup UNION {Val(v) : v \in vs}
Log(h) == /\ hist' = h
          /\ (IF Len(h) < MaxOps \/ (Len(ToString(h)) + 3 * h[1].a + 5 * h[Len(h)].a + Seed) % Every # 0 THEN TRUE ELSE PrintT("SCENARIO " \o ToJson([ops |-> h])))
Make(op, a, b) == /\ Len(vec) < MaxVecs
                  /\ cell' = Append(cell, Stamp(hist, {a, b})) /\ vec' = Append(vec, Len(cell) + 1)
                  /\ Log(Append(hist, [op |-> op, a |-> a, b |-> b]))
Write(op, a, b) == /\ cell' = [cell EXCEPT ![vec[a]] = Stamp(hist, {a, b})] /\ UNCHANGED vec
                   /\ Log(Append(hist, [op |-> op, a |-> a, b |-> b]))
Next == /\ Len(hist) < MaxOps
        /\ \E a \in 1..Len(vec) :
             \/ \E op \in Pure1 \cup PureS : Make(op, a, a)
             \/ \E op \in Pure2, b \in 1..Len(vec) : Make(op, a, b)
             \/ \E op \in InS : Write(op, a, a)
             \/ \E op \in In2, b \in 1..Len(vec) : Write(op, a, b)
\* no two vectors share a cell, so an operator changes at most the vector it is written on
NoSharing == Cardinality({vec[i] : i \in 1..Len(vec)}) = Len(vec)
OnlyTarget == [][\A v \in 1..Len(vec) : cell'[vec'[v]] # cell[vec[v]] =>
                   hist'[Len(hist')].op \in In2 \cup InS /\ hist'[Len(hist')].a = v]_vars
=============================================================================
