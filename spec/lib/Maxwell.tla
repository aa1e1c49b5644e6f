------------------------------ MODULE Maxwell -------------------------------
(* The discretised frequency-domain Maxwell equations on a rectangular grid    *)
(* with periodic wrap-around and complex coordinate stretching.                *)
(*                                                                             *)
(* A grid function F is a sequence of columns, F[i][j], i in 1..Nx, j in 1..Ny.*)
(* A discretisation g is a record                                              *)
(*   Nx, Ny           grid shape                                               *)
(*   xf, xb, yf, yb   per-index coefficients 1/(s dl) of the forward/backward  *)
(*                    differences, s being the stretching factor (zero along   *)
(*                    a direction with one cell: nothing varies there)         *)
(* A medium m is a record om (angular frequency), ep, mu (in units of L0), j   *)
(* (the imaginary unit).                                                       *)
(* Written over CNum only, so that the same text is used on doubles and over   *)
(* a finite field.                                                             *)
EXTENDS Integers, Sequences, TLC, CNum

Wrap(i, n) == ((i - 1) % n) + 1

Grid(Nx, Ny, F(_, _)) ==
  TLCEval([i \in 1..Nx |-> TLCEval([j \in 1..Ny |-> F(i, j)])])
Map1(F, f(_)) == TLCEval([i \in 1..Len(F) |-> TLCEval([j \in 1..Len(F[i]) |-> f(F[i][j])])])
Map2(F, G, f(_, _)) == TLCEval([i \in 1..Len(F) |-> TLCEval([j \in 1..Len(F[i]) |-> f(F[i][j], G[i][j])])])
Flat(F) == LET ny == Len(F[1]) IN
  TLCEval([k \in 1..(Len(F) * ny) |-> F[((k - 1) \div ny) + 1][((k - 1) % ny) + 1]])
Unflat(s, Nx, Ny) == Grid(Nx, Ny, LAMBDA i, j : s[(i - 1) * Ny + j])
GSum(F) == CSum(Flat(F))

(* differences; the transposed ones are those of the bilinear form Sum F G *)
DxF(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j : CMul(g.xf[i], CSub(F[Wrap(i + 1, g.Nx)][j], F[i][j])))
DxB(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j : CMul(g.xb[i], CSub(F[i][j], F[Wrap(i - 1, g.Nx)][j])))
DyF(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j : CMul(g.yf[j], CSub(F[i][Wrap(j + 1, g.Ny)], F[i][j])))
DyB(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j : CMul(g.yb[j], CSub(F[i][j], F[i][Wrap(j - 1, g.Ny)])))
DxFT(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j :
   LET p == Wrap(i - 1, g.Nx) IN CSub(CMul(g.xf[p], F[p][j]), CMul(g.xf[i], F[i][j])))
DxBT(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j :
   LET p == Wrap(i + 1, g.Nx) IN CSub(CMul(g.xb[i], F[i][j]), CMul(g.xb[p], F[p][j])))
DyFT(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j :
   LET p == Wrap(j - 1, g.Ny) IN CSub(CMul(g.yf[p], F[i][p]), CMul(g.yf[j], F[i][j])))
DyBT(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j :
   LET p == Wrap(j + 1, g.Ny) IN CSub(CMul(g.yb[j], F[i][j]), CMul(g.yb[p], F[i][p])))

(* values on the edge between a cell and the one before it *)
AvgX(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j : CDiv(CAdd(F[i][j], F[Wrap(i - 1, g.Nx)][j]), 2))
AvgY(g, F) == Grid(g.Nx, g.Ny, LAMBDA i, j : CDiv(CAdd(F[i][j], F[i][Wrap(j - 1, g.Ny)]), 2))

(***************************************************************************)
(* Ez polarization:  d/dx (1/mu) d/dx E + d/dy (1/mu) d/dy E               *)
(*                   + om^2 ep eps E = j om J                              *)
(* The three terms are kept apart so that a residual can be related to     *)
(* their size.                                                             *)
(***************************************************************************)
EzTerms(g, m, eps, E) ==
  << Map1(DxF(g, DxB(g, E)), LAMBDA z : CDiv(z, m.mu)),
     Map1(DyF(g, DyB(g, E)), LAMBDA z : CDiv(z, m.mu)),
     Map2(eps, E, LAMBDA e, z : CMul(CMul(CMul(m.om, m.om), m.ep), CMul(e, z))) >>
HxOf(g, m, E) == LET c == CDiv(CNeg(1), CMul(CMul(m.j, m.om), m.mu)) IN Map1(DyB(g, E), LAMBDA z : CMul(c, z))
HyOf(g, m, E) == LET c == CDiv(1, CMul(CMul(m.j, m.om), m.mu)) IN Map1(DxB(g, E), LAMBDA z : CMul(c, z))

(***************************************************************************)
(* Hz polarization:  d/dx (1/(ep epsx)) d/dx H + d/dy (1/(ep epsy)) d/dy H *)
(*                   + om^2 mu H = j om J                                  *)
(* with the permittivity averaged onto the cell edges.                     *)
(***************************************************************************)
HzTerms(g, m, eps, H) ==
  LET ex == AvgX(g, eps)  ey == AvgY(g, eps) IN
  << DxF(g, Map2(DxB(g, H), ex, LAMBDA z, e : CDiv(z, CMul(m.ep, e)))),
     DyF(g, Map2(DyB(g, H), ey, LAMBDA z, e : CDiv(z, CMul(m.ep, e)))),
     Map1(H, LAMBDA z : CMul(CMul(CMul(m.om, m.om), m.mu), z)) >>
(* eps here is the permittivity used for the transverse fields *)
ExOf(g, m, epsy, H) == LET c == CDiv(1, CMul(m.j, m.om)) IN
  Map2(DyB(g, H), epsy, LAMBDA z, e : CDiv(CMul(c, z), CMul(m.ep, e)))
EyOf(g, m, epsx, H) == LET c == CDiv(CNeg(1), CMul(m.j, m.om)) IN
  Map2(DxB(g, H), epsx, LAMBDA z, e : CDiv(CMul(c, z), CMul(m.ep, e)))

Terms(g, m, pol, eps, F) == IF pol = "Ez" THEN EzTerms(g, m, eps, F) ELSE HzTerms(g, m, eps, F)
RhsOf(m, src) == Map1(src, LAMBDA z : CMul(CMul(m.j, m.om), z))
AddTerms(T) == Grid(Len(T[1]), Len(T[1][1]), LAMBDA i, j : CSum([k \in 1..Len(T) |-> T[k][i][j]]))
Wave(g, m, pol, eps, F) == AddTerms(Terms(g, m, pol, eps, F))
=============================================================================
