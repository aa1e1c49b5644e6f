------------------------------ MODULE Objective ------------------------------
(* Objectives: J = Sum_t coef_t Prod_f phi_f, a factor phi being                *)
(*   abs2   Sum w |F|^2            lin    Re Sum w F                            *)
(*   cross  Re Sum w F conj(G)                                                  *)
(* of the declared arguments.  This family is closed under what objectives are  *)
(* made of (powers, overlaps, differences, products, ratios replaced by         *)
(* products) and has exact derivatives.  F and dF are sequences of grids, one   *)
(* per declared argument; W are the weights.                                    *)
EXTENDS Kerr, RNum

Phi(f, F, W) ==
  CASE f.k = "abs2" -> CRe(CDot(Flat(W[f.w]), Flat(Map1(F[f.a], LAMBDA z : CAbs2(z)))))
    [] f.k = "lin" -> CRe(CDot(Flat(W[f.w]), Flat(F[f.a])))
    [] f.k = "cross" -> CRe(CDot(Flat(W[f.w]), Flat(Map2(F[f.a], F[f.b], LAMBDA x, y : CMul(x, CConj(y))))))
DPhi(f, F, dF, W) ==
  CASE f.k = "abs2" -> CRe(CDot(Flat(W[f.w]), Flat(Map2(F[f.a], dF[f.a], LAMBDA z, d : CMul(2, CRe(CMul(CConj(z), d)))))))
    [] f.k = "lin" -> CRe(CDot(Flat(W[f.w]), Flat(dF[f.a])))
    [] f.k = "cross" -> CRe(CDot(Flat(W[f.w]),
         Flat(Add2(Map2(dF[f.a], F[f.b], LAMBDA x, y : CMul(x, CConj(y))),
                   Map2(F[f.a], dF[f.b], LAMBDA x, y : CMul(x, CConj(y)))))))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN CN(1) ELSE CMul(Head(s), Prod(Tail(s)))
JOf(terms, F, W) == CSum([t \in 1..Len(terms) |->
  CMul(terms[t].c, Prod([n \in 1..Len(terms[t].f) |-> Phi(terms[t].f[n], F, W)]))])
DJOf(terms, F, dF, W) == CSum([t \in 1..Len(terms) |->
  LET fs == terms[t].f
      p == TLCEval([n \in 1..Len(fs) |-> Phi(fs[n], F, W)])
      d == TLCEval([n \in 1..Len(fs) |-> DPhi(fs[n], F, dF, W)])
  IN CMul(terms[t].c, CSum([n \in 1..Len(fs) |-> CMul(d[n], Prod([m \in 1..Len(fs) |-> IF m = n THEN CN(1) ELSE p[m]]))]))])

(* first-order change of the Hz wave equation for (deps, dH)                    *)
HzTangentTerms(g, m, eps, H, deps, dH) ==
  LET ex == AvgX(g, eps)  ey == AvgY(g, eps)  dx == AvgX(g, deps)  dy == AvgY(g, deps)
      q(D, e, de) == Map2(Map2(D, e, LAMBDA z, v : CDiv(z, CMul(m.ep, CMul(v, v)))), de, LAMBDA z, v : CNeg(CMul(z, v)))
  IN HzTerms(g, m, eps, dH) \o << DxF(g, q(DxB(g, H), ex, dx)), DyF(g, q(DyB(g, H), ey, dy)) >>
TangentTerms(g, m, pol, ns, L0, eps, F, deps, dF) ==
  IF pol = "Ez" THEN EzTangentTerms(g, m, ns, L0, eps, F, deps, dF) ELSE HzTangentTerms(g, m, eps, F, deps, dF)

(* change of the component comp of a solution for a change dF of the primary    *)
(* component; the transverse electric field divides by the local permittivity   *)
DComp(g, m, pol, comp, eps, deps, dF, C) ==
  CASE comp = pol -> dF
    [] comp = "Hx" -> HxOf(g, m, dF)
    [] comp = "Hy" -> HyOf(g, m, dF)
    [] comp = "Ex" -> Map2(ExOf(g, m, eps, dF), Map2(Map2(deps, eps, LAMBDA a, b : CDiv(a, b)), C, LAMBDA a, b : CMul(a, b)), LAMBDA a, b : CSub(a, b))
    [] comp = "Ey" -> Map2(EyOf(g, m, eps, dF), Map2(Map2(deps, eps, LAMBDA a, b : CDiv(a, b)), C, LAMBDA a, b : CMul(a, b)), LAMBDA a, b : CSub(a, b))
=============================================================================
