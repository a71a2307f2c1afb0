------------------------------- MODULE Frames -------------------------------
(* The documented chain of coordinate systems and the transformations between*)
(* neighbours: a rotation of the axes about one axis by an angle of known     *)
(* sign, or (profile) an exchange of two axes.                                *)
EXTENDS Integers, Sequences

\* the chain; neighbours are joined by one transformation each way
Chain == <<"inertial", "wind", "yaw", "hub", "azimuth", "blade", "airfoil", "profile">>
\* name -> [from, to, axis of rotation (3 = z, 2 = y, 1 = x; 0 = exchange of x and y), key of its angle, sense]
T(f, t, axis, key, sense) == [from |-> f, to |-> t, axis |-> axis, key |-> key, sense |-> sense]
Transforms ==
    [inertialToWind   |-> T(1, 2, 3, "dbeta", 1),     windToInertial   |-> T(2, 1, 3, "dbeta", -1),
     windToYaw        |-> T(2, 3, 3, "dyaw", 1),      yawToWind        |-> T(3, 2, 3, "dyaw", -1),
     yawToHub         |-> T(3, 4, 2, "dtilt", 1),     hubToYaw         |-> T(4, 3, 2, "dtilt", -1),
     hubToAzimuth     |-> T(4, 5, 1, "dazimuth", 1),  azimuthToHub     |-> T(5, 4, 1, "dazimuth", -1),
     azimuthToBlade   |-> T(5, 6, 2, "dprecone", -1), bladeToAzimuth   |-> T(6, 5, 2, "dprecone", 1),
     bladeToAirfoil   |-> T(6, 7, 3, "dtheta", -1),   airfoilToBlade   |-> T(7, 6, 3, "dtheta", 1),
     airfoilToProfile |-> T(7, 8, 0, "", 1),          profileToAirfoil |-> T(8, 7, 0, "", 1)]
\* the two axes that a rotation about `axis` mixes, in order (x X y = z cyclically)
First(axis) == (axis % 3) + 1
Second(axis) == ((axis + 1) % 3) + 1
\* components in axes rotated by an angle of sine s and cosine c about `axis`; Add/Sub/Mul of the number domain
Turn(axis, s, c, v, Add(_, _), Sub(_, _), Mul(_, _)) ==
    IF axis = 0 THEN <<v[2], v[1], v[3]>>
    ELSE [i \in 1..3 |-> IF i = First(axis) THEN Add(Mul(v[First(axis)], c), Mul(v[Second(axis)], s))
                         ELSE IF i = Second(axis) THEN Sub(Mul(v[Second(axis)], c), Mul(v[First(axis)], s))
                         ELSE v[i]]
=============================================================================
