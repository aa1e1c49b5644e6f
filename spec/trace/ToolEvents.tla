----------------------------- MODULE ToolEvents ------------------------------
(* Free-standing helpers: linear solvers, grid helpers, binarization,           *)
(* structure generators.  Events carry arguments and results only.              *)
EXTENDS ModeEvents

(***************************************************************************)
(* Linear algebra                                                          *)
(***************************************************************************)
MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> CDot(A[i], x)])
VAdd(x, y) == [i \in 1..Len(x) |-> CAdd(x[i], y[i])]
VSub(x, y) == [i \in 1..Len(x) |-> CSub(x[i], y[i])]
VFinite(x) == \A i \in 1..Len(x) : RFinite(x[i])
VZero(x) == \A i \in 1..Len(x) : CEq(x[i], 0)
(* x solves the system given by the left-hand side lhs, row by row up to        *)
(* rounding relative to the sizes involved                                      *)
SystemOK(lhs, b, size) ==
  LET r == VSub(lhs, b) IN RLe(RNorm(r), CMul(CN("1e-8"), CAdd(RNorm(b), CMul(CN("1e-4"), size))))
Backends == {"pardiso", "scipy"}
LinSolve(tr, e) ==
  LET b == Flat(Arr(tr, e.b))  n == Len(b) IN
  IF VZero(b) THEN V(e.exc = "" /\ Len(e.ret) = n /\ VZero(e.ret), "C17:zero right-hand side does not give zeros")
  ELSE IF e.lower \notin Backends THEN V(e.exc # "", "C17:unknown backend accepted")
  ELSE IF e.exc # "" THEN <<"C17:solver raised">>
  ELSE IF Len(e.ret) # n THEN <<"C17:solution misshapen">>
  ELSE IF ~VFinite(e.ret) THEN <<"C17:solution is not finite">>
  ELSE LET A == Arr(tr, e.A)
           conj == [i \in 1..n |-> CConj(e.ret[i])]
           lhs == IF e.ev = "direct" THEN MatVec(A, e.ret) ELSE VAdd(MatVec(A, e.ret), MatVec(Arr(tr, e.A2), conj))
           size == CMul(RNorm(Flat(A)), RNorm(e.ret))
       IN V(SystemOK(lhs, b, size), "C17:not a solution of the system")

(* e.vals, e.vecs (rows): returned pairs; e.all: every eigenvalue with e.allv    *)
Eigs(tr, e) ==
  LET A == Arr(tr, e.A)  n == Len(A)
      big == RNorm(Flat(A))
      pair(l, v) == /\ RClose(RNorm(v), 1, CN("1e-6"), 0)
                    /\ RLe(RNorm(VSub(MatVec(A, v), [i \in 1..n |-> CMul(l, v[i])])), CMul(CN("1e-8"), big))
      W == Arr(tr, e.allv)
      d(l) == RAbs(CSub(l, e.guess))
      D == TLCEval([k \in 1..n |-> d(e.all[k])])
      trace == CSum([k \in 1..n |-> A[k][k]])
  IN IF Len(e.all) # n \/ \E k \in 1..n : ~pair(e.all[k], W[k]) THEN <<"MACHINE:eigenvalues">>
     ELSE IF ~RClose(CSum(e.all), trace, 0, CMul(CN("1e-8"), CMul(n, big))) THEN <<"MACHINE:trace of the eigenvalues">>
     ELSE IF e.exc # "" THEN <<"C17:eigen-solver raised">>
     ELSE IF Len(e.vals) # e.n \/ Len(Arr(tr, e.vecs)) # e.n THEN <<"C17:number of eigenpairs">>
     ELSE LET X == Arr(tr, e.vecs)  tol == CMul(CN("1e-6"), big) IN Cat(<<
       V(\A k \in 1..e.n : pair(e.vals[k], X[k]), "C17:not an eigenpair"),
       V(\A k \in 1..e.n : LET m == Cardinality({j \in 1..n : RLt(CAdd(D[j], tol), d(e.vals[k]))}) IN m <= k - 1,
         "C17:eigenpairs are not the nearest to the guess, nearest first") >>)

Average(tr, e) ==
  IF e.w \notin {"x", "y"} \/ (e.oneD /\ e.w = "y") THEN V(e.exc # "", "C17:average along no axis accepted")
  ELSE IF e.exc # "" THEN <<"C17:edge average raised">>
  ELSE LET F == Arr(tr, e.arg)
           (* one-dimensional arrays are recorded as a row *)
           Nx == Len(F)  Ny == Len(F[1])
           along == IF e.oneD THEN "y" ELSE e.w
           want == Grid(Nx, Ny, LAMBDA i, j : CDiv(CAdd(F[i][j], IF along = "x" THEN F[Wrap(i - 1, Nx)][j] ELSE F[i][Wrap(j - 1, Ny)]), 2))
       IN V(Sh(tr, e.ret) = Sh(tr, e.arg) /\ GClose(Arr(tr, e.ret), want, CN("1e-12"), CN("1e-300")), "C17:edge average")
Spacing(e) ==
  V(e.exc = "" /\ Len(e.ret) = Len(e.n) /\ \A k \in 1..Len(e.n) :
      RClose(e.ret[k], CDiv(CSub(e.r[k][2], e.r[k][1]), e.n[k]), CN("1e-12"), 0), "C17:grid spacing")
Equal(tr, e) == V(e.exc = "" /\ e.ret = (Arr(tr, e.A) = Arr(tr, e.B)), "C17:equality of matrices")

(* the operator applied to a vector e.v gives e.ret; derivative matrices e.D     *)
OperatorOf(tr, e) ==
  IF e.pol \notin {"Ez", "Hz"} THEN V(e.exc # "", "C17,C21:operator of an unknown polarization")
  ELSE IF e.exc # "" THEN <<"C17,C01:constructing the operator raised">>
  ELSE LET q == [Nx |-> e.Nx, Ny |-> e.Ny, dl |-> e.dl, L0 |-> e.L0, om |-> e.om, np |-> e.np]
           g == Discr(q)  m == Medium([L0 |-> e.L0, om |-> e.om])
           eps == Arr(tr, e.eps)  F == Arr(tr, e.v)
           terms == IF e.pol = "Ez" \/ e.avg THEN Terms(g, m, e.pol, eps, F)
                    ELSE << DxF(g, Map2(DxB(g, F), eps, LAMBDA a, b : CDiv(a, CMul(m.ep, b)))),
                            DyF(g, Map2(DyB(g, F), eps, LAMBDA a, b : CDiv(a, CMul(m.ep, b)))),
                            Map1(F, LAMBDA z : CMul(CMul(CMul(m.om, m.om), m.mu), z)) >>
           D == <<DxF(g, F), DxB(g, F), DyF(g, F), DyB(g, F)>>
       IN Cat(<< V(Balanced(terms, Arr(tr, e.ret), CN("1e-9"), CN("1e-12")), "C17,C01:operator is not that of the discretised equations"),
            V(\A k \in 1..4 : GNear(Arr(tr, e.ders[k]), D[k], CN("1e-9"), CMul(CN("1e-12"), CDiv(RMaxAbs(Flat(F)), e.dl))),
              "C17,C01:derivative matrices") >>)

(***************************************************************************)
(* Binarization: factor and its derivative with respect to the permittivity *)
(***************************************************************************)
Dens(e, mask, eps, i, j) == CMul(CDiv(CSub(eps[i][j], 1), CSub(e.epsm, 1)), mask[i][j])
Gray(r) == CMul(CMul(4, r), CSub(1, r))
DGray(r) == CMul(4, CSub(1, CMul(2, r)))
CellSeq(F) == [k \in 1..(Len(F) * Len(F[1])) |-> <<((k - 1) \div Len(F[1])) + 1, ((k - 1) % Len(F[1])) + 1>>]
NDes(mask) == CSum(Flat(mask))
MeanGray(e, mask, eps, f(_)) == LET C == CellSeq(eps) IN
  CDiv(CSum([k \in 1..Len(C) |-> f(Gray(Dens(e, mask, eps, C[k][1], C[k][2])))]), NDes(mask))
Id(z) == z
Factor(e, mask, eps) ==
  CASE e.kind = "density" -> CSub(1, MeanGray(e, mask, eps, Id))
    [] e.kind = "density_exp" -> RExp(CNeg(CMul(e.cst, RAbs(MeanGray(e, mask, eps, Id)))))
    [] e.kind = "smoothness" -> CSub(1, MeanGray(e, mask, eps, RAbs))
Sgn(z) == IF RLt(z, 0) THEN CN(-1) ELSE IF RLt(0, z) THEN CN(1) ELSE CN(0)
DFactor(e, mask, eps, i, j) ==
  LET r == Dens(e, mask, eps, i, j)
      dg == CDiv(CMul(CDiv(DGray(r), CSub(e.epsm, 1)), mask[i][j]), NDes(mask))
  IN CASE e.kind = "density" -> CNeg(dg)
       [] e.kind = "density_exp" -> CNeg(CMul(CMul(CMul(e.cst, Sgn(MeanGray(e, mask, eps, Id))), Factor(e, mask, eps)), dg))
       [] e.kind = "smoothness" -> CNeg(CMul(Sgn(Gray(r)), dg))
(* on a zero of a modulus there is no derivative                                *)
Smooth(e, mask, eps, i, j) ==
  CASE e.kind = "density" -> TRUE
    [] e.kind = "density_exp" -> RLt(CN("1e-9"), RAbs(MeanGray(e, mask, eps, Id)))
    [] e.kind = "smoothness" -> RLt(CN("1e-9"), RAbs(Gray(Dens(e, mask, eps, i, j))))
(* e.J, e.dJ[n]: value and derivatives of the objective itself; e.ret, e.dret of *)
(* the wrapped one; the permittivity is argument 3                               *)
Binarize(tr, e) ==
  IF e.exc # "" THEN <<"C18:binarized objective raised">>
  ELSE LET mask == Arr(tr, e.mask)  eps == Arr(tr, e.eps)
           f == TLCEval(Factor(e, mask, eps))
           C == CellSeq(eps)
           rows == [n \in 1..3 |-> Arr(tr, e.dret[n])]
           base == [n \in 1..3 |-> Arr(tr, e.dJ[n])]
           sc(n) == CMul(CN("1e-9"), CAdd(CMul(RAbs(f), RMaxAbs(Flat(base[n]))), RAbs(e.J)))
           in01 == \A k \in 1..Len(C) : LET r == Dens(e, mask, eps, C[k][1], C[k][2]) IN RLe(0, r) /\ RLe(r, 1)
           binary == \A k \in 1..Len(C) : LET r == Dens(e, mask, eps, C[k][1], C[k][2]) IN RClose(r, 0, 0, CN("1e-12")) \/ RClose(r, 1, CN("1e-12"), 0)
           big == RLt(CN("1e-6"), MeanGray(e, mask, eps, RAbs))
       IN Cat(<<
         V(RClose(e.ret, CMul(e.J, f), CN("1e-9"), CMul(CN("1e-12"), RAbs(e.J))), "C18:objective is not multiplied by the stated factor"),
         (* the factor: 1 exactly for binary designs, smaller with grayness       *)
         V((in01 /\ binary) => RClose(e.ret, e.J, CN("1e-9"), 0), "C18:factor of a binary design is not one"),
         V((in01 /\ ~binary /\ big /\ ~CEq(e.J, 0) /\ RLt(0, e.cst)) => RLt(RAbs(e.ret), RAbs(e.J)), "C18:grayness does not decrease the objective"),
         V(\A n \in 1..2 : GClose(rows[n], Map1(base[n], LAMBDA z : CMul(f, z)), CN("1e-7"), CMul(CN("1e-9"), RMaxAbs(Flat(base[n])))), "C18:derivative with respect to a field"),
         V(\A k \in 1..Len(C) : LET i == C[k][1] j == C[k][2] IN
             Smooth(e, mask, eps, i, j) => RClose(rows[3][i][j], CAdd(CMul(f, base[3][i][j]), CMul(e.J, DFactor(e, mask, eps, i, j))), CN("1e-7"), sc(3)),
           "C18:derivative with respect to the permittivity") >>)

(* density helpers of utils                                                      *)
Util(e) ==
  LET want(x) == CASE e.f = "eps2rho_bar" -> CDiv(CSub(x, 1), CSub(e.epsm, 1))
                   [] e.f = "rho_bar2eps" -> CAdd(1, CMul(x, CSub(e.epsm, 1)))
                   [] e.f = "deps_drho_bar" -> CDiv(1, CSub(e.epsm, 1))
                   [] e.f = "rho_bar" -> Proj(e.beta, e.eta, x)
                   [] e.f = "drho_bar_drho" -> DProj(e.beta, e.eta, x)
  IN IF e.exc # "" THEN <<"C18,C09:density helper raised">>
     ELSE V(Len(e.ret) = Len(e.x) /\ \A k \in 1..Len(e.x) : RClose(e.ret[k], want(e.x[k]), CN("1e-8"), CN("1e-10")), "C18,C09:density helper " \o e.f)

ToolEvs == {"direct", "c2r", "eigs", "average", "spacing", "equal", "operator", "binarize", "util"}
ToolClauses(tr, e) ==
  Cat(<< CASE e.ev \in {"direct", "c2r"} -> LinSolve(tr, e)
           [] e.ev = "eigs" -> Eigs(tr, e)
           [] e.ev = "average" -> Average(tr, e)
           [] e.ev = "spacing" -> Spacing(e)
           [] e.ev = "equal" -> Equal(tr, e)
           [] e.ev = "operator" -> OperatorOf(tr, e)
           [] e.ev = "binarize" -> Binarize(tr, e)
           [] e.ev = "util" -> Util(e),
         V(e.mut = <<>>, (IF e.ev \in {"binarize", "util"} THEN "C18" ELSE "C17") \o ":a helper modified its arguments") >>)
=============================================================================
