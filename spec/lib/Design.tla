------------------------------- MODULE Design --------------------------------
(* From a density to a permittivity: cone filter, projection, material.         *)
(* A design d is a record                                                       *)
(*   mask (grid function, design cells have 1), np (layers), R (0: no filter),  *)
(*   eta, beta, epsm                                                            *)
EXTENDS Maxwell, RNum

In(d, i, j) == CEq(d.mask[i][j], 1)
(* the disc of radius R around a cell: offsets and weights                      *)
Offsets(R) == TLCEval([k \in 1..((2 * R + 1) * (2 * R + 1)) |->
  LET a == ((k - 1) \div (2 * R + 1)) - R  b == ((k - 1) % (2 * R + 1)) - R
  IN <<a, b, CSub(R, RSqrt(CAdd(a * a, b * b)))>>])
Cone(R) == TLCEval(SelectSeq(Offsets(R), LAMBDA o : RLt(0, o[3])))
(* is the full disc clear of the layers along an axis?                          *)
Clear(i, n, np, R) == np = 0 \/ (i - 1 >= R + np + 1 /\ i - 1 < n - R - 1 - np)

Filtered(d, rho) ==
  LET Nx == Len(rho)  Ny == Len(rho[1]) IN
  IF d.R = 0 THEN rho
  ELSE LET c == Cone(d.R)
           tot == CSum([k \in 1..Len(c) |-> c[k][3]])
       IN Grid(Nx, Ny, LAMBDA i, j :
            IF ~In(d, i, j) THEN CN(rho[i][j])
            ELSE IF ~(Clear(i, Nx, d.np[1], d.R) /\ Clear(j, Ny, d.np[2], d.R)) THEN CN(0)
            ELSE CDiv(CSum([k \in 1..Len(c) |->
                        CMul(c[k][3], rho[((i - 1 + c[k][1] + 64 * Nx) % Nx) + 1][((j - 1 + c[k][2] + 64 * Ny) % Ny) + 1])]), tot))

ProjDen(b, eta) == CAdd(RTanh(CMul(b, eta)), RTanh(CMul(b, CSub(1, eta))))
Proj(b, eta, x) == CDiv(CAdd(RTanh(CMul(b, eta)), RTanh(CMul(b, CSub(x, eta)))), ProjDen(b, eta))
DProj(b, eta, x) == LET t == RTanh(CMul(b, CSub(x, eta))) IN CDiv(CMul(b, CSub(1, CMul(t, t))), ProjDen(b, eta))
Projected(d, rho) == LET R == Filtered(d, rho) IN Map1(R, LAMBDA x : Proj(d.beta, d.eta, x))
Material(epsm, x) == CAdd(1, CMul(x, CSub(epsm, 1)))
Density(epsm, e) == CDiv(CSub(e, 1), CSub(epsm, 1))
(* the permittivity of a density; cells outside of the design keep theirs       *)
Image(d, rho, old) == LET P == Projected(d, rho) IN
  Grid(Len(rho), Len(rho[1]), LAMBDA i, j : IF In(d, i, j) THEN Material(d.epsm, P[i][j]) ELSE CN(old[i][j]))
(* change of the permittivity to first order in a change dr of the density      *)
DImage(d, rho, dr) ==
  LET R == Filtered(d, rho)  D == Filtered(d, dr) IN
  Grid(Len(rho), Len(rho[1]), LAMBDA i, j :
    IF In(d, i, j) THEN CMul(CMul(CSub(d.epsm, 1), DProj(d.beta, d.eta, R[i][j])), D[i][j]) ELSE CN(0))
=============================================================================
