------------------------------ MODULE M_FlapS -------------------------------
(* M_Flap for one process that runs again and again with the common names.    *)
EXTENDS M_Flap
=============================================================================
