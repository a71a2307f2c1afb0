--------------------------- MODULE SessionAlgebra ---------------------------
(* Histories of analyses on several rotor objects (C08).                      *)
(* A rotor object is constructed from a configuration; its only other state   *)
(* is its twist, replaced by an inverse design. The key of a call is          *)
(* everything its result may depend on: nothing of the history but the last   *)
(* inverse design of that object.                                             *)
EXTENDS Integers, Sequences

NoDesign == <<>>
\* a call: [op, cond (a sequence of conditions), coef]
SectionKey(cfg, design, cond) == <<"section", cfg, design, cond>>
InverseKey(cfg, cond) == <<"inverse", cfg, cond>>
EvalKey(cfg, design, cond) == <<"evaluate", cfg, design, cond>>
CoefKey(cfg, design, cond) == <<"coefficients", cfg, design, cond>>
=============================================================================
