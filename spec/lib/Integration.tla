---------------------------- MODULE Integration ----------------------------
(* Rotor forces and moments from section loads (C05).                         *)
EXTENDS Kinematics

\* the blade with hub and tip added, where loads are zero
Ext(v, first, last) == <<first>> \o v \o <<last>>
Trapz(f, ds) == RSum([i \in 1..Len(ds) |-> RHalf (.) (f[i] (+) f[i + 1]) (.) ds[i]])

\* path, cone and height of the extended blade; once per rotor
FullBlade(c, g) ==
    LET r == Ext(g.r, c.Rhub, c.Rtip)
        cv == Ext(g.cv, R0, c.precurveTip)
        sw == Ext(g.sw, R0, c.presweepTip)
        ax == Axis(r, cv, sw, Rad(c.precone))
    IN  [ds |-> Vec([i \in 1..(Len(r) - 1) |-> SegLen(r, cv, sw, i)]), z |-> ax.z, cone |-> ConeAngles(ax)]

\* one blade: thrust, side, vertical, torque, flap moment; and the sums of the magnitudes
Blade(fb, Np, Tp) ==
    LET n == Ext(Np, R0, R0)  t == Ext(Tp, R0, R0)  I == 1..Len(n)
    IN  [T |-> Trapz([i \in I |-> n[i] (.) RCos(fb.cone[i])], fb.ds),
         Y |-> Trapz(t, fb.ds),
         Z |-> Trapz([i \in I |-> n[i] (.) RSin(fb.cone[i])], fb.ds),
         Q |-> Trapz([i \in I |-> t[i] (.) fb.z[i]], fb.ds),
         M |-> Trapz([i \in I |-> n[i] (.) fb.z[i]], fb.ds),
         fN |-> Trapz([i \in I |-> RAbs(n[i])], fb.ds),
         fT |-> Trapz([i \in I |-> RAbs(t[i])], fb.ds),
         mN |-> Trapz([i \in I |-> RAbs(n[i] (.) fb.z[i])], fb.ds),
         mT |-> Trapz([i \in I |-> RAbs(t[i] (.) fb.z[i])], fb.ds)]

\* rotor: blades b[j] at azimuths az[j] (radians), nB blades (a double)
Rotor(b, az, nB) ==
    LET J == 1..Len(b)
        m == RInt(Len(b))
        Mean(f) == RSum(f) (/) m
        Tot(f) == nB (.) Mean(f)
    IN  [T |-> Tot([j \in J |-> b[j].T]), Q |-> Tot([j \in J |-> b[j].Q]), Mb |-> Mean([j \in J |-> b[j].M]),
         Y |-> Tot([j \in J |-> (b[j].Y (.) RCos(az[j])) (-) (b[j].Z (.) RSin(az[j]))]),
         Z |-> Tot([j \in J |-> (b[j].Z (.) RCos(az[j])) (+) (b[j].Y (.) RSin(az[j]))]),
         My |-> Tot([j \in J |-> b[j].M (.) RCos(az[j])]),
         Mz |-> Tot([j \in J |-> b[j].M (.) RSin(az[j])]),
         F |-> Tot([j \in J |-> b[j].fN (+) b[j].fT]),
         M |-> Tot([j \in J |-> b[j].mN (+) b[j].mT])]
=============================================================================
