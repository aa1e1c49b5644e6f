-------------------------------- MODULE RNum --------------------------------
(* Operators without meaning over a finite field; none of them is evaluated by  *)
(* the models that use this domain.                                             *)
EXTENDS CNum
RAbs(a) == CHOOSE x : TRUE
RSqrt(a) == CHOOSE x : TRUE
RTanh(a) == CHOOSE x : TRUE
RExp(a) == CHOOSE x : TRUE
RLog(a) == CHOOSE x : TRUE
RCos(a) == CHOOSE x : TRUE
RSin(a) == CHOOSE x : TRUE
RPow(a, b) == CHOOSE x : TRUE
RPi == CHOOSE x : TRUE
RTrunc(a) == CHOOSE x : TRUE
RFloor(a) == CHOOSE x : TRUE
RLe(a, b) == CHOOSE x : TRUE
RLt(a, b) == CHOOSE x : TRUE
RFinite(a) == TRUE
RMaxAbs(s) == CHOOSE x : TRUE
RMax(s) == CHOOSE x : TRUE
RMin(s) == CHOOSE x : TRUE
RNorm(s) == CHOOSE x : TRUE
RClose(a, b, rtol, atol) == CEq(a, b)
RShow(a) == CHOOSE x : TRUE
=============================================================================
