------------------------------ MODULE M_Config ------------------------------
(* Construction of a rotor: model switches, inflow, station layout, sectors. *)
(* Stations are integers (the span is a multiple of 200), so that the moved  *)
(* end stations are exact. The completed configurations are the scenarios    *)
(* replayed on the code.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS SectorRequests, Blades, Every   \* one in `Every` completed configurations is a scenario
Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) ELSE 1

VARIABLES pc, cfg, r, eff, nsec, az
vars == <<pc, cfg, r, eff, nsec, az>>

Regimes == <<"normal", "slow", "fast", "heavy", "negU", "negOm", "negBoth", "brake">>
Bit(b) == IF b THEN 1 ELSE 0
B01 == {FALSE, TRUE}

Init == /\ pc = "switches" /\ cfg = [z |-> 0] /\ r = <<>> /\ eff = <<>> /\ nsec = 0 /\ az = <<>>

ChooseSwitches ==
    /\ pc = "switches"
    /\ \E t \in B01, h \in B01, w \in B01, d \in B01, it \in {1, 2} :
         cfg' = [tiploss |-> t, hubloss |-> h, wakerotation |-> w, usecd |-> d, iterRe |-> it,
                 code |-> Bit(t) + 2 * Bit(h) + 4 * Bit(w) + 8 * Bit(d) + 16 * it]
    /\ pc' = "inflow" /\ UNCHANGED <<r, eff, nsec, az>>

ChooseInflow ==
    /\ pc = "inflow"
    /\ \E t \in B01, y \in B01, s \in B01, ns \in SectorRequests, b \in Blades :
         cfg' = [tilt0 |-> t, yaw0 |-> y, shear0 |-> s, nSector |-> ns, B |-> b,
                 code |-> cfg.code + 64 * Bit(t) + 128 * Bit(y) + 256 * Bit(s) + 7 * ns + 11 * b] @@ cfg
    /\ pc' = "blade" /\ UNCHANGED <<r, eff, nsec, az>>

\* four stations; `tight`: the neighbours of the ends are closer than 1% of the span
ChooseBlade ==
    /\ pc = "blade"
    /\ \E h \in B01, t \in B01, tight \in B01, shape \in 0..5 :
         /\ cfg' = [hubN |-> h, tipN |-> t, tight |-> tight,
                    curve |-> shape \in {1, 2, 4, 5}, sweep |-> shape \in {3, 4, 5}, curveEq |-> shape \in {2, 3, 5},
                    code |-> cfg.code + 3 * Bit(h) + 5 * Bit(t) + 13 * Bit(tight) + 17 * shape] @@ cfg
         /\ r' = LET g == IF tight THEN 8 ELSE 200 IN
                 LET lo == IF h THEN 1000 ELSE 1100 IN <<lo, lo + g, lo + 4000 - g, lo + 4000>>
    /\ pc' = "construct" /\ UNCHANGED <<eff, nsec, az>>

Rhub == 1000
Rtip == IF cfg.tipN THEN r[4] ELSE r[4] + 100
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Span == r[4] - r[1]

\* what the constructor does
Construct ==
    /\ pc = "construct"
    /\ eff' = [i \in 1..4 |->
         IF i = 1 /\ Rhub = r[1] THEN r[1] + Min(Span \div 100, (r[2] - r[1]) \div 2)
         ELSE IF i = 4 /\ Rtip = r[4] THEN r[1] + Max(99 * (Span \div 100), ((r[3] - r[1]) + (r[4] - r[1])) \div 2)
         ELSE r[i]]
    /\ nsec' = IF cfg.tilt0 /\ cfg.yaw0 /\ cfg.shear0 THEN 1 ELSE Max(4, cfg.nSector)
    /\ pc' = "sectors" /\ UNCHANGED <<cfg, r, az>>

\* evaluation visits the sectors one after another, starting at azimuth zero (1/840 revolutions)
Visit ==
    /\ pc = "sectors" /\ Len(az) < nsec
    /\ az' = Append(az, (840 * Len(az)) \div nsec)
    /\ UNCHANGED <<pc, cfg, r, eff, nsec>>
Finish ==
    /\ pc = "sectors" /\ Len(az) = nsec
    /\ pc' = "done" /\ UNCHANGED <<cfg, r, eff, nsec, az>>
    /\ (cfg.code + Seed) % Every # 0 \/
       PrintT("SCENARIO " \o ToJson([regime |-> Regimes[((cfg.code \div Every) % 8) + 1]] @@ cfg))

Next == ChooseSwitches \/ ChooseInflow \/ ChooseBlade \/ Construct \/ Visit \/ Finish

\* ---- properties -------------------------------------------------------------
Constructed == pc \in {"sectors", "done"}
\* C29: end stations are strictly inside and in order, moved by at most 1% of the span; the others stay
StationsInside == Constructed =>
    /\ Rhub < eff[1] /\ eff[4] < Rtip
    /\ \A i \in 1..3 : eff[i] < eff[i + 1]
    /\ \A i \in 2..3 : eff[i] = r[i]
    /\ 100 * (eff[1] - r[1]) <= Span /\ 100 * (r[4] - eff[4]) <= Span
    /\ (Rhub # r[1] => eff[1] = r[1]) /\ (Rtip # r[4] => eff[4] = r[4])
\* C07
SectorRule == Constructed =>
    /\ (nsec = 1 <=> (cfg.tilt0 /\ cfg.yaw0 /\ cfg.shear0))
    /\ (nsec # 1 => nsec >= 4 /\ nsec >= cfg.nSector /\ nsec \in {4, cfg.nSector})
EquallySpaced == pc = "done" =>
    /\ az[1] = 0
    /\ \A i \in 1..nsec : az[i] * nsec = 840 * (i - 1)
=============================================================================
