------------------------------- MODULE M_File --------------------------------
(* AeroDyn airfoil files line by line: the writer as a generator of lines,    *)
(* the reader as an automaton over them, and damage between the two. Lines    *)
(* are records of a kind and a value; v identifies the table and row, so that *)
(* "every table, every row, in order" is an equality.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxTables, MaxRows
VARIABLES want, file, damage, pos, phase, left, par, tables, rows, result
vars == <<want, file, damage, pos, phase, left, par, tables, rows, result>>

Line(k, v) == [kind |-> k, v |-> v, cols |-> IF k = "row" THEN 4 ELSE 1]
Table(t, n) == <<Line("re", <<t>>)>> \o [j \in 1..8 |-> Line("par", <<t, j>>)] \o [j \in 1..n |-> Line("row", <<t, j>>)] \o <<Line("eot", <<t>>)>>
RECURSIVE Tables(_, _)
Tables(w, t) == IF t > Len(w) THEN <<>> ELSE Table(t, w[t]) \o Tables(w, t + 1)
Write(w) == [j \in 1..3 |-> Line("head", <<j>>)] \o <<Line("count", <<Len(w)>>)>> \o Tables(w, 1)
\* the kinds that hold one leading number
Number(ln) == ln.kind \in {"count", "re", "par", "row"}

Whole == [kind |-> "none", at |-> 0]
Init == /\ want \in UNION {[1..n -> 1..MaxRows] : n \in 1..MaxTables}
        /\ file = Write(want) /\ damage = Whole
        /\ pos = 1 /\ phase = "head" /\ left = 3 /\ par = 0 /\ tables = <<>> /\ rows = <<>> /\ result = "open"
\* before it is read: cut off after some line, one row short of a column, one table fewer than announced
Cut == /\ pos = 1 /\ damage = Whole
       /\ \E k \in 0..(Len(file) - 1) : file' = SubSeq(file, 1, k) /\ damage' = [kind |-> "cut", at |-> k]
       /\ UNCHANGED <<want, pos, phase, left, par, tables, rows, result>>
Narrow == /\ pos = 1 /\ damage = Whole
          /\ \E k \in 1..Len(file) : file[k].kind = "row" /\ file' = [file EXCEPT ![k].cols = 3] /\ damage' = [kind |-> "narrow", at |-> k]
          /\ UNCHANGED <<want, pos, phase, left, par, tables, rows, result>>
Announce == /\ pos = 1 /\ damage = Whole
            /\ file' = [file EXCEPT ![4].v = <<Len(want) + 1>>] /\ damage' = [kind |-> "announce", at |-> 4]
            /\ UNCHANGED <<want, pos, phase, left, par, tables, rows, result>>

End == pos > Len(file)
Emit == PrintT("SCENARIO " \o ToJson([rows |-> want, damage |-> damage.kind, at |-> damage.at]))
Refuse == result' = "refused" /\ UNCHANGED <<want, file, damage, pos, phase, left, par, tables, rows>> /\ Emit
Read ==
    /\ result = "open"
    /\ (IF phase = "head" THEN
            \* reading past the end gives empty lines, which headers may be
            /\ pos' = pos + 1 /\ left' = left - 1 /\ phase' = (IF left = 1 THEN "count" ELSE "head") /\ UNCHANGED <<want, file, damage, par, tables, rows, result>>
        ELSE IF phase = "table" /\ left = 0 THEN result' = "read" /\ UNCHANGED <<want, file, damage, pos, phase, left, par, tables, rows>> /\ Emit
        ELSE IF phase \in {"count", "table", "par"} THEN
            IF End \/ ~Number(file[pos]) THEN Refuse
            ELSE /\ pos' = pos + 1 /\ UNCHANGED <<want, file, damage, result>>
                 /\ (IF phase = "count" THEN left' = file[pos].v[1] /\ phase' = "table" /\ UNCHANGED <<par, tables, rows>>
                     ELSE IF phase = "table" THEN par' = 8 /\ rows' = <<>> /\ phase' = "par" /\ UNCHANGED <<left, tables>>
                     ELSE par' = par - 1 /\ phase' = (IF par = 1 THEN "rows" ELSE "par") /\ UNCHANGED <<left, tables, rows>>)
        ELSE IF End THEN Refuse
        ELSE IF file[pos].kind = "eot" THEN tables' = Append(tables, rows) /\ left' = left - 1 /\ phase' = "table" /\ pos' = pos + 1 /\ UNCHANGED <<want, file, damage, par, rows, result>>
        ELSE IF file[pos].kind # "row" \/ file[pos].cols < 4 THEN Refuse
        ELSE rows' = Append(rows, file[pos].v) /\ pos' = pos + 1 /\ UNCHANGED <<want, file, damage, phase, left, par, tables, result>>)
Next == Cut \/ Narrow \/ Announce \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

Expected == [t \in 1..Len(want) |-> [j \in 1..want[t] |-> <<t, j>>]]
\* what is written is what is read, all of it, and a damaged file is never mistaken for a shorter one
RoundTrip == result = "read" => tables = Expected /\ damage = Whole
NoLoss == (damage = Whole /\ result # "open") => result = "read"
Consumed == result = "read" => pos = Len(file) + 1
Ends == <>(result # "open")
=============================================================================
