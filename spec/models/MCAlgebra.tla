------------------------------ MODULE MCAlgebra -------------------------------
(* Identities of the specification itself, on random elements of a finite field *)
(* (see num_gf/CNum).  The trace specification judges the code by these very    *)
(* operators; here it is model checked that they have the properties claimed:   *)
(* the second-order equations are the first-order Maxwell equations, periodic   *)
(* shifts commute with them, they are reciprocal and conserve discrete power,   *)
(* the Kerr derivatives and every tangent operator are exact derivatives (dual  *)
(* numbers), adjoint gradients equal tangent derivatives, and the real block    *)
(* system is the coupled one.                                                   *)
EXTENDS Flux, Objective, Linear
CONSTANT Shapes, Samples
VARIABLES s, n

Bit16 == 0..65535
(* (operators with a parameter: TLC evaluates a constant definition just once)    *)
RandInt(k) == 65536 * RandomElement(0..32767) + RandomElement(Bit16)
RandC(k) == TLCEval(<<RandInt(k), RandInt(k), 0, 0>>)
RandR(k) == TLCEval(<<RandInt(k), 0, 0, 0>>)
RandG(sh) == Grid(sh[1], sh[2], LAMBDA i, j : RandC(i))
RandGR(sh) == Grid(sh[1], sh[2], LAMBDA i, j : RandR(i))
RandSeq(m) == TLCEval([i \in 1..m |-> RandC(i)])
Const(m, z) == TLCEval([i \in 1..m |-> z])
Zero(sh) == Grid(sh[1], sh[2], LAMBDA i, j : CN(0))
I1 == CMk(0, 1)

Sample(sh) ==
  [sh |-> sh, pol |-> RandomElement({"Ez", "Hz"}),
   xf |-> RandSeq(sh[1]), xb |-> RandSeq(sh[1]), yf |-> RandSeq(sh[2]), yb |-> RandSeq(sh[2]),
   dx |-> RandR(1), dl |-> RandR(1),
   om |-> RandR(1), ep |-> RandR(1), mu |-> RandR(1), L0 |-> RandR(1),
   eps |-> RandG(sh), eps2 |-> RandGR(sh), F |-> RandG(sh), G |-> RandG(sh), deps |-> RandG(sh), dF |-> RandG(sh), w |-> RandG(sh), v |-> RandG(sh),
   b |-> RandG(sh), sx |-> RandomElement(0..(sh[1] - 1)), sy |-> RandomElement(0..(sh[2] - 1)),
   i1 |-> RandomElement(1..sh[1]), j1 |-> RandomElement(1..sh[2]), ni |-> RandomElement(0..(sh[1] - 1)), nj |-> RandomElement(0..(sh[2] - 1)),
   ns |-> TLCEval([k \in 1..RandomElement(0..2) |-> [chi |-> RandR(1), reg |-> RandGR(sh), scale |-> RandomElement(BOOLEAN), emax |-> RandR(1)]])]

g == [Nx |-> s.sh[1], Ny |-> s.sh[2], xf |-> s.xf, xb |-> s.xb, yf |-> s.yf, yb |-> s.yb]     \* with layers
u == [Nx |-> s.sh[1], Ny |-> s.sh[2],                                                         \* without
      xf |-> Const(s.sh[1], s.dx), xb |-> Const(s.sh[1], s.dx), yf |-> Const(s.sh[2], s.dx), yb |-> Const(s.sh[2], s.dx)]
m == [om |-> s.om, ep |-> s.ep, mu |-> s.mu, j |-> I1]
Eq(A, B) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : CEq(A[i][j], B[i][j])
Roll(F, sx, sy) == Grid(Len(F), Len(F[1]), LAMBDA i, j : F[Wrap(i - sx, Len(F))][Wrap(j - sy, Len(F[1]))])
Scale(c, F) == Map1(F, LAMBDA z : CMul(c, z))
Sub2(A, B) == Map2(A, B, LAMBDA a, b : CSub(a, b))
Mul2(A, B) == Map2(A, B, LAMBDA a, b : CMul(a, b))
W(gg, eps, F) == Wave(gg, m, s.pol, eps, F)
jom == CMul(I1, s.om)

(* C01: the wave equation is Ampere's (Faraday's) law for the curl fields       *)
FirstOrder ==
  IF s.pol = "Ez"
  THEN Eq(Sub2(DxF(g, HyOf(g, m, s.F)), DyF(g, HxOf(g, m, s.F))),
          Add2(Scale(CMul(jom, s.ep), Mul2(s.eps, s.F)), Scale(CDiv(1, jom), W(g, s.eps, s.F))))
  ELSE LET ex == ExOf(g, m, AvgY(g, s.eps), s.F)  ey == EyOf(g, m, AvgX(g, s.eps), s.F) IN
       Eq(Sub2(DxF(g, ey), DyF(g, ex)),
          Add2(Scale(CNeg(CMul(jom, s.mu)), s.F), Scale(CNeg(CDiv(1, jom)), W(g, s.eps, s.F))))
(* C03: cyclic shifts commute with the equations where there is no stretching    *)
ShiftX == LET h == [g EXCEPT !.xf = u.xf, !.xb = u.xb] IN
  Eq(W(h, Roll(s.eps, s.sx, 0), Roll(s.F, s.sx, 0)), Roll(W(h, s.eps, s.F), s.sx, 0))
ShiftY == LET h == [g EXCEPT !.yf = u.yf, !.yb = u.yb] IN
  Eq(W(h, Roll(s.eps, 0, s.sy), Roll(s.F, 0, s.sy)), Roll(W(h, s.eps, s.F), 0, s.sy))
(* C03, C07: reciprocity without layers; the transposed differences             *)
Reciprocal == CEq(GSum(Mul2(s.G, W(u, s.eps, s.F))), GSum(Mul2(s.F, W(u, s.eps, s.G))))
Transposes ==
  /\ CEq(GSum(Mul2(s.G, DxF(g, s.F))), GSum(Mul2(s.F, DxFT(g, s.G))))
  /\ CEq(GSum(Mul2(s.G, DxB(g, s.F))), GSum(Mul2(s.F, DxBT(g, s.G))))
  /\ CEq(GSum(Mul2(s.G, DyF(g, s.F))), GSum(Mul2(s.F, DyFT(g, s.G))))
  /\ CEq(GSum(Mul2(s.G, DyB(g, s.F))), GSum(Mul2(s.F, DyBT(g, s.G))))
(* C04: net power out of any block of cells is what its sources give, in real    *)
(* permittivity (dl = 1/dx)                                                      *)
i2 == IF s.i1 + s.ni > s.sh[1] THEN s.sh[1] ELSE s.i1 + s.ni
j2 == IF s.j1 + s.nj > s.sh[2] THEN s.sh[2] ELSE s.j1 + s.nj
InBlock(i, j) == i >= s.i1 /\ i <= i2 /\ j >= s.j1 /\ j <= j2
Poynting ==
  LET dl == CDiv(1, s.dx)
      T == IF s.pol = "Ez" THEN <<HxOf(u, m, s.F), HyOf(u, m, s.F)>>
           ELSE <<ExOf(u, m, AvgY(u, s.eps2), s.F), EyOf(u, m, AvgX(u, s.eps2), s.F)>>
      J == Scale(CDiv(1, jom), W(u, s.eps2, s.F))          \* the source the field belongs to
      given == GSum(Grid(s.sh[1], s.sh[2], LAMBDA i, j :
                 IF InBlock(i, j) THEN CRe(CMul(s.F[i][j], CConj(J[i][j]))) ELSE CN(0)))
  IN CEq(NetOut(u, s.pol, <<T[1], T[2], s.F>>, dl, s.i1, i2, s.j1, j2),
         CNeg(CDiv(CMul(CMul(dl, dl), given), 2)))

(* exact derivatives by dual numbers                                             *)
D2(A, dA) == Map2(A, dA, LAMBDA a, b : CDual(a, b))
Dv(A) == Map1(A, LAMBDA z : CEps(z))
(* C06 *)
KerrDerivative ==
  LET dn == Dv(EpsNl(s.ns, s.L0, D2(s.eps, s.deps), D2(s.F, s.dF)))
      de == DnlDe(s.ns, s.L0, s.eps, s.F)
      dc == Grid(s.sh[1], s.sh[2], LAMBDA i, j :    \* conjugate partner: E in place of conj(E)
              CSum([k \in 1..Len(s.ns) |-> CMul(CMul(Chi3(s.ns[k], s.L0, i, j), s.F[i][j]), Frac(s.ns[k], s.eps[i][j]))]))
  IN /\ Eq(dn, DEpsNl(s.ns, s.L0, s.eps, s.F, s.deps, s.dF))
     /\ Eq(dn, Add2(Add2(Mul2(de, s.dF), Mul2(dc, Map1(s.dF, LAMBDA z : CConj(z)))), Mul2(DnlDeps(s.ns, s.L0, s.eps, s.F), s.deps)))
(* C05, C07, C08: the tangent of the wave equation; for Ez this is Newton's Jacobian *)
Tangent ==
  LET e == D2(s.eps, s.deps)  F == D2(s.F, s.dF)
      ns == IF s.pol = "Ez" THEN s.ns ELSE <<>>
      tot == Add2(e, EpsNl(ns, s.L0, e, F))
  IN Eq(Dv(W(g, tot, F)), AddTerms(TangentTerms(g, m, s.pol, ns, s.L0, s.eps, s.F, s.deps, s.dF)))
(* C07: tangents of the transverse components                                    *)
Components ==
  LET e == D2(s.eps, s.deps)  F == D2(s.F, s.dF) IN
  IF s.pol = "Ez"
  THEN /\ Eq(Dv(HxOf(g, m, F)), DComp(g, m, "Ez", "Hx", s.eps, s.deps, s.dF, s.F))
       /\ Eq(Dv(HyOf(g, m, F)), DComp(g, m, "Ez", "Hy", s.eps, s.deps, s.dF, s.F))
  ELSE /\ Eq(Dv(ExOf(g, m, e, F)), DComp(g, m, "Hz", "Ex", s.eps, s.deps, s.dF, ExOf(g, m, s.eps, s.F)))
       /\ Eq(Dv(EyOf(g, m, e, F)), DComp(g, m, "Hz", "Ey", s.eps, s.deps, s.dF, EyOf(g, m, s.eps, s.F)))
(* C07, C08, C16: the derivative of objectives                                   *)
Terms1 == << [c |-> CN(3), f |-> <<[k |-> "abs2", a |-> 1, b |-> 1, w |-> 1]>>],
             [c |-> CN(-2), f |-> <<[k |-> "lin", a |-> 2, b |-> 2, w |-> 2], [k |-> "cross", a |-> 1, b |-> 2, w |-> 1], [k |-> "abs2", a |-> 2, b |-> 2, w |-> 2]>>] >>
Objectives ==
  CEq(CEps(JOf(Terms1, <<D2(s.F, s.dF), D2(s.G, s.b)>>, <<s.w, s.v>>)),
      DJOf(Terms1, <<s.F, s.G>>, <<s.dF, s.b>>, <<s.w, s.v>>))
(* C07: with A^T a = w, the derivative of Re Sum w F along the solutions is       *)
(* - Re Sum a (change of the equations at fixed field)                            *)
Small == s.sh[1] * s.sh[2] <= 6
Adjoint ==
  Small =>
  LET A == Transpose(Columns(s.sh[1], s.sh[2], LAMBDA X : W(g, s.eps, X)))
      b == Flat(AddTerms(TangentTerms(g, m, s.pol, <<>>, s.L0, s.eps, s.F, s.deps, Zero(s.sh))))
      d == SolveLinear(A, [k \in 1..Len(b) |-> CNeg(b[k])])
      a == SolveLinear(Transpose(A), Flat(s.w))
  IN d # <<>> /\ a # <<>> =>
       /\ CEq(CRe(CDot(Flat(s.w), d)), CNeg(CRe(CDot(a, b))))
       (* the tangent witness is recognised by the trace specification *)
       /\ Eq(AddTerms(TangentTerms(g, m, s.pol, <<>>, s.L0, s.eps, s.F, s.deps, Unflat(d, s.sh[1], s.sh[2]))), Zero(s.sh))
(* C08: the same with the Kerr term: A d + B conj(d) + b = 0 and                  *)
(* A^T a + conj(B) conj(a) = w                                                    *)
EzOp(tot, X) == AddTerms(EzTerms(g, m, tot, X))
AdjointNl ==
  (s.sh[1] * s.sh[2] <= 4 /\ s.pol = "Ez" /\ Len(s.ns) > 0) =>
  LET tot == Add2(s.eps, EpsNl(s.ns, s.L0, s.eps, s.F))
      k2 == CMul(CMul(s.om, s.om), s.ep)
      de == DnlDe(s.ns, s.L0, s.eps, s.F)
      dc == Grid(s.sh[1], s.sh[2], LAMBDA i, j :
              CSum([k \in 1..Len(s.ns) |-> CMul(CMul(Chi3(s.ns[k], s.L0, i, j), s.F[i][j]), Frac(s.ns[k], s.eps[i][j]))]))
      A == Transpose(Columns(s.sh[1], s.sh[2], LAMBDA X : Add2(EzOp(tot, X), Scale(k2, Mul2(Mul2(de, s.F), X)))))
      Bd == Flat(Scale(k2, Mul2(dc, s.F)))
      B == TLCEval([i \in 1..Len(Bd) |-> TLCEval([j \in 1..Len(Bd) |-> IF i = j THEN Bd[i] ELSE CN(0)])])
      b == Flat(AddTerms(EzTangentTerms(g, m, s.ns, s.L0, s.eps, s.F, s.deps, Zero(s.sh))))
      d == Coupled(A, B, [k \in 1..Len(b) |-> CNeg(b[k])])
      a == Coupled(Transpose(A), [i \in 1..Len(B) |-> [j \in 1..Len(B) |-> CConj(B[i][j])]], Flat(s.w))
  IN d # <<>> /\ a # <<>> =>
       /\ Eq(AddTerms(EzTangentTerms(g, m, s.ns, s.L0, s.eps, s.F, s.deps, Unflat(d, s.sh[1], s.sh[2]))), Zero(s.sh))
       /\ CEq(CRe(CDot(Flat(s.w), d)), CNeg(CRe(CDot(a, b))))
(* C17: the block system solves the coupled one                                   *)
Block ==
  LET A == s.F  B == s.G  k == s.sh[1] IN
  (s.sh[1] = s.sh[2]) => LET x == Coupled(A, B, s.w[1]) IN
     x # <<>> => \A i \in 1..k : CEq(CAdd(CDot(A[i], x), CDot(B[i], [j \in 1..k |-> CConj(x[j])])), s.w[1][i])

MCShapes == {<<1, 4>>, <<5, 1>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<4, 3>>}
Init == n = 0 /\ \E sh \in Shapes : s = Sample(sh)
Next == n < Samples /\ n' = n + 1 /\ s' = Sample(s.sh)
Spec == Init /\ [][Next]_<<s, n>>
=============================================================================
