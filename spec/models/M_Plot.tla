------------------------------- MODULE M_Plot --------------------------------
(* The figures of a plotting session. There is one list of open figures and a *)
(* current one, shared by everybody who draws; plots of a polar or an airfoil *)
(* open their own figures and draw on those only. Curves are <<polar, column>>.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxPolars, Depth
Cols == <<"cl", "cd", "cm">>
VARIABLES n, figs, current, rets, log
vars == <<n, figs, current, rets, log>>
Init == n \in 1..MaxPolars /\ figs = <<>> /\ current = 0 /\ rets = <<>> /\ log = <<>>
OfPolar(i) == [k \in 1..3 |-> <<<<i, Cols[k]>>>>]
Single == [k \in 1..3 |-> [i \in 1..n |-> <<i, Cols[k]>>]]
RECURSIVE MultiUpTo(_)
MultiUpTo(i) == IF i = 0 THEN <<>> ELSE MultiUpTo(i - 1) \o OfPolar(i)
New(do, i) == CASE do = "polar" -> OfPolar(i) [] do = "single" -> Single [] do = "multi" -> MultiUpTo(n) [] OTHER -> <<<<<<0, "mine">>>>>>
Plot(do, i) ==
    /\ Len(log) < Depth
    /\ LET f == New(do, i)
       IN  /\ figs' = figs \o f
           /\ current' = Len(figs) + Len(f)
           /\ rets' = Append(rets, IF do = "user" THEN <<>> ELSE [k \in 1..Len(f) |-> Len(figs) + k])
           /\ log' = Append(log, [do |-> do, i |-> i])
    /\ UNCHANGED n
Emit == Len(log) = Depth /\ log' = Append(log, [do |-> "end", i |-> 0]) /\ UNCHANGED <<n, figs, current, rets>>
        /\ PrintT("SCENARIO " \o ToJson([n |-> n, steps |-> log]))
Next == (\E i \in 1..n : Plot("polar", i)) \/ (\E d \in {"single", "multi", "user"} : Plot(d, 0)) \/ Emit
Spec == Init /\ [][Next]_vars
\* nothing is drawn on figures that exist; the figures returned are the new ones; every column of every polar of an airfoil plot is there once
Untouched == [][SubSeq(figs', 1, Len(figs)) = figs]_vars
Owned == \A k \in 1..Len(rets) : \A j \in 1..Len(rets) : k # j => {rets[k][x] : x \in 1..Len(rets[k])} \cap {rets[j][x] : x \in 1..Len(rets[j])} = {}
Complete == \A k \in 1..Len(rets) : (k <= Depth /\ log[k].do \in {"single", "multi"}) =>
              LET all == {<<f, c>> : f \in {rets[k][x] : x \in 1..Len(rets[k])}, c \in 1..n}
                  cnt(q) == Cardinality({fc \in all : fc[2] <= Len(figs[fc[1]]) /\ figs[fc[1]][fc[2]] = q})
              IN \A i \in 1..n : \A y \in 1..3 : cnt(<<i, Cols[y]>>) = 1
=============================================================================
