-------------------------------- MODULE CNum --------------------------------
(* Complex arithmetic over IEEE doubles.  The definitions below only state     *)
(* the mathematical meaning; TLC evaluates them with the Java class CNum.      *)
(* An integer n and the JSON strings "re" and "re im" also denote numbers.     *)
EXTENDS Integers, Reals, Sequences
CMk(re, im) == <<re, im>>
CN(a) == CMk(a, 0)                        \* normal form of a number
CAdd(a, b) == CMk(a[1] + b[1], a[2] + b[2])
CSub(a, b) == CMk(a[1] - b[1], a[2] - b[2])
CMul(a, b) == CMk(a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1])
CDiv(a, b) == CHOOSE c \in Real \X Real : CMul(c, b) = a
CNeg(a) == CMk(-a[1], -a[2])
CConj(a) == CMk(a[1], -a[2])
CRe(a) == CMk(a[1], 0)
CIm(a) == CMk(a[2], 0)
CAbs2(a) == CMul(a, CConj(a))
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN CMk(0, 0) ELSE CAdd(Head(s), CSum(Tail(s)))
CDot(s, t) == CSum([i \in 1..Len(s) |-> CMul(s[i], t[i])])
CEq(a, b) == a = b
=============================================================================
