------------------------------- MODULE M_Flap -------------------------------
(* Runs of the external panel code for flapped coordinates: the files a run   *)
(* writes, hands over, reads and removes, at the granularity of single file   *)
(* operations. Two processes at once with names of their own (Multi), or runs *)
(* one after another with common names, some of which fail or are killed.     *)
(* The orders of the steps the external program can be stopped at are the     *)
(* scenarios replayed on the code.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Multi, Every
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1
Kinds == {"ok", "silent", "killed"}     \* the external program works, writes nothing, or the process is killed when it has written
\* programs: the runs of each process in turn; a run is [kind, af, same]: whether airfoil and deflection are those of the run before
R(k, a) == [kind |-> k, af |-> a]
Programs == IF Multi THEN {<<<<R(k, 1)>>, <<R(m, a)>>>> : k \in {"ok", "silent"}, m \in {"ok", "silent"}, a \in {1, 2}}
                          \cup {<<<<R(k, 1), R("ok", a)>>, <<R("ok", b)>>>> : k \in {"ok", "silent"}, a \in {1, 2}, b \in {1, 2}}
            ELSE {<<<<R(k[1], a[1]), R(k[2], a[2]), R(k[3], a[3])>>, <<>>>> : k \in [1..3 -> Kinds], a \in [1..3 -> {1, 2}]}
Procs == {1, 2}
VARIABLES prog, pc, at, fs, held, res, log, done
vars == <<prog, pc, at, fs, held, res, log, done>>
\* a process that was killed goes on as another one: a new number
Pid(p) == IF Multi THEN p ELSE 0
Cur(p) == prog[p][at[p]]
Run(p) == <<p, at[p]>>
Name(p, what) == <<what, Pid(p)>>
SaveName(p) == <<"save", Pid(p), Cur(p).af>>
Own(p) == {Name(p, "coords"), SaveName(p), Name(p, "script"), Name(p, "nul")}
None == <<0, 0>>
Other == <<"bystander", 9>>
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == /\ prog \in Programs /\ pc = [p \in Procs |-> "clean"] /\ at = [p \in Procs |-> 1] /\ fs = (Other :> None)
        /\ held = [p \in Procs |-> None] /\ res = <<>> /\ log = <<>> /\ done = FALSE
Active(p) == ~done /\ at[p] <= Len(prog[p])
Go(p, a, b) == Active(p) /\ pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
Mark(p, w) == log' = Append(log, [p |-> p, w |-> w])
Clean(p) == Go(p, "clean", "coords") /\ fs' = Drop(fs, Own(p)) /\ UNCHANGED <<prog, at, held, res, log, done>>
Coords(p) == Go(p, "coords", "script") /\ fs' = Put(fs, Name(p, "coords"), Run(p)) /\ UNCHANGED <<prog, at, held, res, log, done>>
Script(p) == Go(p, "script", "start") /\ fs' = Put(fs, Name(p, "script"), Run(p)) /\ UNCHANGED <<prog, at, held, res, log, done>>
\* the external program starts (its output goes to another own file)
Start(p) == Go(p, "start", "load") /\ fs' = Put(fs, Name(p, "nul"), Run(p)) /\ Mark(p, "started") /\ UNCHANGED <<prog, at, held, res, done>>
Load(p) == Go(p, "load", "save") /\ held' = [held EXCEPT ![p] = IF Name(p, "coords") \in DOMAIN fs THEN fs[Name(p, "coords")] ELSE None]
           /\ Mark(p, "loaded") /\ UNCHANGED <<prog, at, fs, res, done>>
Save(p) == /\ Go(p, "save", IF Cur(p).kind = "killed" THEN "gone" ELSE "read")
           /\ fs' = IF Cur(p).kind = "silent" THEN fs ELSE Put(fs, SaveName(p), held[p])
           /\ Mark(p, "saved") /\ UNCHANGED <<prog, at, held, res, done>>
Next1(p) == at' = [at EXCEPT ![p] = @ + 1]
Gone(p) == Go(p, "gone", "clean") /\ Next1(p) /\ Mark(p, "killed") /\ res' = Append(res, [run |-> Run(p), got |-> None, want |-> None]) /\ UNCHANGED <<prog, fs, held, done>>
Read(p) == /\ Go(p, "read", IF SaveName(p) \in DOMAIN fs THEN "tidy" ELSE "clean")
           /\ res' = Append(res, [run |-> Run(p), got |-> IF SaveName(p) \in DOMAIN fs THEN fs[SaveName(p)] ELSE None,
                                  want |-> IF Cur(p).kind = "silent" THEN None ELSE Run(p)])
           /\ (IF SaveName(p) \in DOMAIN fs THEN UNCHANGED <<at, log>> ELSE Next1(p) /\ Mark(p, "end"))
           /\ UNCHANGED <<prog, fs, held, done>>
Tidy(p) == Go(p, "tidy", "clean") /\ fs' = Drop(fs, Own(p)) /\ Next1(p) /\ Mark(p, "end") /\ UNCHANGED <<prog, held, res, done>>
RECURSIVE Code(_)
Code(i) == IF i > Len(log) THEN Len(prog[1]) + (IF prog[1][1].kind = "ok" THEN 3 ELSE 0) + 5 * prog[1][1].af ELSE (i * (log[i].p * 5 + Len(log[i].w)) + 31 * Code(i + 1)) % 9973
Stop == /\ ~done /\ \A p \in Procs : ~Active(p)
        /\ done' = TRUE /\ UNCHANGED <<prog, pc, at, fs, held, res, log>>
        /\ (IF (Code(1) + Seed) % Every = 0 THEN PrintT("SCENARIO " \o ToJson([multi |-> Multi, prog |-> prog, log |-> log])) ELSE TRUE)
Next == (\E p \in Procs : Clean(p) \/ Coords(p) \/ Script(p) \/ Start(p) \/ Load(p) \/ Save(p) \/ Gone(p) \/ Read(p) \/ Tidy(p)) \/ Stop
\* every run returns what it produced itself, and fails when it produced nothing
OwnResult == \A i \in 1..Len(res) : res[i].got = res[i].want
\* nothing of anybody else is touched; a run that ended well leaves nothing behind
Bystander == Other \in DOMAIN fs /\ fs[Other] = None
Tidied == \A p \in Procs : (pc[p] = "clean" /\ at[p] > 1 /\ prog[p][at[p] - 1].kind = "ok")
                             => \A x \in {Name(p, "coords"), Name(p, "script"), Name(p, "nul"), <<"save", Pid(p), prog[p][at[p] - 1].af>>} : x \notin DOMAIN fs
\* the program was given the coordinates of its own run
Given == \A p \in Procs : pc[p] \in {"save", "read", "tidy"} => held[p] = Run(p)
=============================================================================
