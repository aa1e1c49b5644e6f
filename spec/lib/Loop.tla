-------------------------------- MODULE Loop --------------------------------
(* What an optimizer iteration records, and where.  Used by the trace            *)
(* specification of runs (RunEvents) and proved of the loop in models/MCLoop.    *)
EXTENDS Session

Methods == {"lbfgs", "gd", "adam"}
Explicit(m) == m # "lbfgs"
(* the objective record and the index shift of an iteration belong to the design *)
(* before it (explicit steps) or after it (L-BFGS); the source amplitude recorded *)
(* is that before it                                                             *)
RecordAt(m, before, after) == IF Explicit(m) THEN before ELSE after
(* number of records a run of n iterations adds                                  *)
CountOK(m, n, added) == IF Explicit(m) THEN added = n ELSE added >= 0 /\ added <= n
(* fields found after a run are solutions for the state then, except that a       *)
(* limit makes L-BFGS change the source after the last solve                      *)
FieldsCurrent(m, limited) == Explicit(m) \/ ~limited
=============================================================================
