-------------------------------- MODULE CNum --------------------------------
(* The number domain of the numerical modules for model checking: dual numbers  *)
(* over the field GF(p^2), p = 2^31 - 1 = 3 (mod 4), with the Frobenius map     *)
(* (complex conjugation) extended coefficient-wise.  A number <<a, b, c, d>>    *)
(* denotes (a + b i) + (c + d i) e  with e^2 = 0;  an integer n denotes its     *)
(* residue.  Equality is exact.  An identity between polynomial or rational     *)
(* expressions with integer coefficients in real and imaginary parts that is    *)
(* false over the complex numbers holds for random arguments modulo the characteristic with      *)
(* probability at most degree/p (Schwartz, Zippel).                             *)
(* The e-part of f(x + e d) is the exact derivative of f at x in direction d.   *)
(* TLC evaluates the operators with the Java class CNum of this folder; the     *)
(* definitions state their meaning.                                             *)
EXTENDS Integers, Sequences
Char == 2147483647
Res(a) == a % Char
CN(a) == a                                \* normal form of a number
CMk(re, im) == <<Res(re), Res(im), 0, 0>>
CDual(x, d) == <<x[1], x[2], d[1], d[2]>>
CVal(x) == <<x[1], x[2], 0, 0>>
CEps(x) == <<x[3], x[4], 0, 0>>
CAdd(a, b) == <<Res(a[1] + b[1]), Res(a[2] + b[2]), Res(a[3] + b[3]), Res(a[4] + b[4])>>
CNeg(a) == <<Res(-a[1]), Res(-a[2]), Res(-a[3]), Res(-a[4])>>
CSub(a, b) == CAdd(a, CNeg(b))
CMul(a, b) ==
  << Res(a[1] * b[1] - a[2] * b[2]), Res(a[1] * b[2] + a[2] * b[1]),
     Res(a[1] * b[3] - a[2] * b[4] + a[3] * b[1] - a[4] * b[2]),
     Res(a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1]) >>
CConj(a) == <<a[1], Res(-a[2]), a[3], Res(-a[4])>>
CRe(a) == <<a[1], 0, a[3], 0>>
CIm(a) == <<a[2], 0, a[4], 0>>
CAbs2(a) == CMul(a, CConj(a))
CUnit(a) == a[1] # 0 \/ a[2] # 0          \* invertible
CDiv(a, b) == CHOOSE q \in (0..(Char-1)) \X (0..(Char-1)) \X (0..(Char-1)) \X (0..(Char-1)) : CMul(q, b) = a
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0, 0, 0>> ELSE CAdd(Head(s), CSum(Tail(s)))
CDot(s, t) == CSum([i \in 1..Len(s) |-> CMul(s[i], t[i])])
CEq(a, b) == a = b
=============================================================================
