-------------------------------- MODULE Kerr --------------------------------
(* Kerr nonlinearity.  A nonlinearity n is a record                            *)
(*   chi    susceptibility in SI, reg  region (grid function),                 *)
(*   scale  whether it is weighted by the material fraction, emax              *)
(* Written over CNum only.                                                     *)
EXTENDS Maxwell

Frac(n, eps) == IF n.scale THEN CDiv(CSub(eps, 1), CSub(n.emax, 1)) ELSE CN(1)
DFrac(n) == IF n.scale THEN CDiv(1, CSub(n.emax, 1)) ELSE CN(0)
(* 3 chi/L0^2 on the region *)
Chi3(n, L0, i, j) == CMul(CDiv(CMul(3, n.chi), CMul(L0, L0)), n.reg[i][j])

EpsNl(ns, L0, eps, E) == Grid(Len(E), Len(E[1]), LAMBDA i, j :
  CSum([k \in 1..Len(ns) |-> CMul(CMul(Chi3(ns[k], L0, i, j), CAbs2(E[i][j])), Frac(ns[k], eps[i][j]))]))
(* Wirtinger derivative with respect to E (the one with respect to conj(E) is  *)
(* its conjugate partner, E in place of conj(E))                               *)
DnlDe(ns, L0, eps, E) == Grid(Len(E), Len(E[1]), LAMBDA i, j :
  CSum([k \in 1..Len(ns) |-> CMul(CMul(Chi3(ns[k], L0, i, j), CConj(E[i][j])), Frac(ns[k], eps[i][j]))]))
DnlDeps(ns, L0, eps, E) == Grid(Len(E), Len(E[1]), LAMBDA i, j :
  CSum([k \in 1..Len(ns) |-> CMul(CMul(Chi3(ns[k], L0, i, j), CAbs2(E[i][j])), DFrac(ns[k]))]))

(* change of the nonlinear permittivity to first order in (dE, deps)           *)
DEpsNl(ns, L0, eps, E, deps, dE) == Grid(Len(E), Len(E[1]), LAMBDA i, j :
  CSum([k \in 1..Len(ns) |->
    LET c == Chi3(ns[k], L0, i, j)
        ab == CAdd(CMul(CConj(E[i][j]), dE[i][j]), CMul(E[i][j], CConj(dE[i][j])))
    IN CAdd(CMul(CMul(c, ab), Frac(ns[k], eps[i][j])),
            CMul(CMul(c, CAbs2(E[i][j])), CMul(DFrac(ns[k]), deps[i][j])))]))
Add2(F, G) == Map2(F, G, LAMBDA a, b : CAdd(a, b))

(* First-order change of the wave equation at (eps, E) for (deps, dE): zero for *)
(* a tangent of the solution set (the source being fixed).                      *)
EzTangentTerms(g, m, ns, L0, eps, E, deps, dE) ==
  LET tot == Add2(eps, EpsNl(ns, L0, eps, E))
      dtot == Add2(deps, DEpsNl(ns, L0, eps, E, deps, dE))
  IN EzTerms(g, m, tot, dE)
     \o << Map2(dtot, E, LAMBDA e, z : CMul(CMul(CMul(m.om, m.om), m.ep), CMul(e, z))) >>
=============================================================================
