-------------------------------- MODULE RNum --------------------------------
(* Real functions and comparisons with tolerance, over the numbers of CNum.    *)
(* TLC evaluates these with the Java class RNum; the bodies are place holders. *)
(* Real-valued functions use the real part of their arguments.  Comparisons    *)
(* involving NaN are FALSE.                                                    *)
EXTENDS CNum
RAbs(a) == CHOOSE x : TRUE           \* modulus
RSqrt(a) == CHOOSE x : TRUE
RTanh(a) == CHOOSE x : TRUE
RExp(a) == CHOOSE x : TRUE
RLog(a) == CHOOSE x : TRUE
RCos(a) == CHOOSE x : TRUE
RSin(a) == CHOOSE x : TRUE
RPow(a, b) == CHOOSE x : TRUE
RPi == CHOOSE x : TRUE
RTrunc(a) == CHOOSE x : TRUE         \* TLA+ integer, towards zero
RFloor(a) == CHOOSE x : TRUE         \* TLA+ integer
RLe(a, b) == CHOOSE x : TRUE
RLt(a, b) == CHOOSE x : TRUE
RFinite(a) == CHOOSE x : TRUE
RMaxAbs(s) == CHOOSE x : TRUE        \* largest modulus of a sequence, NaN if any
RMax(s) == CHOOSE x : TRUE
RMin(s) == CHOOSE x : TRUE
RNorm(s) == CHOOSE x : TRUE          \* Euclidean norm of a sequence
RClose(a, b, rtol, atol) == CHOOSE x : TRUE   \* |a-b| <= atol + rtol max(|a|,|b|)
RShow(a) == CHOOSE x : TRUE          \* decimal string
=============================================================================
