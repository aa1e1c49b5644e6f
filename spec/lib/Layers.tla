------------------------------- MODULE Layers -------------------------------
(* Discretisation of a concrete setup: absorbing layers and physical constants.*)
(* A setup s has Nx, Ny, dl, L0, om, np = <<npx, npy>> (cells), pol.           *)
EXTENDS Maxwell, RNum

EPS0 == CN("8.85418782e-12")
MU0  == CN("1.25663706e-6")
ETA0 == RSqrt(CDiv(MU0, EPS0))
J1   == CMk(0, 1)

(* Stretching factor at distance l (in units of the grid) into a layer of      *)
(* thickness d: 1 - j sigma/(om eps0 L0), sigma growing with the fourth power  *)
(* up to 5*12/(2 eta0 d), which is the nominal attenuation exp(-12).           *)
StretchAt(l, d, om, L0) ==
  LET smax == CDiv(60, CMul(CMul(2, ETA0), d))
      sig  == CMul(smax, RPow(CDiv(l, d), 4))
  IN CSub(1, CMul(J1, CDiv(sig, CMul(om, CMul(EPS0, L0)))))

(* index i is 1-based; the forward difference lives half a cell ahead          *)
Stretch(i, n, np, half, dl, om, L0) ==
  LET k == i - 1
      off == IF half THEN CN("0.5") ELSE 1
      d == CMul(np, dl)
  IN IF np < 1 THEN CN(1)
     ELSE IF k <= np THEN StretchAt(CMul(dl, CAdd(np - k, off)), d, om, L0)
     ELSE IF k > n - np THEN StretchAt(CMul(dl, CSub(k - (n - np), off)), d, om, L0)
     ELSE CN(1)

Coef(n, np, half, dl, om, L0) ==
  TLCEval([i \in 1..n |-> IF n = 1 THEN CN(0) ELSE CDiv(1, CMul(Stretch(i, n, np, half, dl, om, L0), dl))])

Discr(s) ==
  [Nx |-> s.Nx, Ny |-> s.Ny,
   xf |-> Coef(s.Nx, s.np[1], TRUE,  s.dl, s.om, s.L0),
   xb |-> Coef(s.Nx, s.np[1], FALSE, s.dl, s.om, s.L0),
   yf |-> Coef(s.Ny, s.np[2], TRUE,  s.dl, s.om, s.L0),
   yb |-> Coef(s.Ny, s.np[2], FALSE, s.dl, s.om, s.L0)]
Medium(s) == [om |-> CN(s.om), ep |-> CMul(EPS0, s.L0), mu |-> CMul(MU0, s.L0), j |-> J1]

(***************************************************************************)
(* Comparison of grid functions                                            *)
(***************************************************************************)
IsGrid(F, Nx, Ny) == F.sh = <<Nx, Ny>>
AllCells(Nx, Ny, P(_, _)) == \A i \in 1..Nx : \A j \in 1..Ny : P(i, j)
(* equal up to rtol of the larger entry plus atol of the largest entry *)
GClose(F, G, rtol, atol) ==
  LET a == CMul(atol, RMaxAbs(<<RMaxAbs(Flat(F)), RMaxAbs(Flat(G))>>))
  IN \A i \in 1..Len(F) : \A j \in 1..Len(F[i]) : RClose(F[i][j], G[i][j], rtol, a)
GSame(F, G) == \A i \in 1..Len(F) : \A j \in 1..Len(F[i]) : CEq(F[i][j], G[i][j])
GFinite(F) == \A i \in 1..Len(F) : \A j \in 1..Len(F[i]) : RFinite(F[i][j])
SClose(s, t, rtol, atol) == Len(s) = Len(t) /\
  LET a == CMul(atol, RMaxAbs(<<RMaxAbs(s), RMaxAbs(t)>>))
  IN \A i \in 1..Len(s) : RClose(s[i], t[i], rtol, a)

(* The terms T (a sequence of grid functions) add up to R in every cell, up to *)
(* rtol of the sum of the moduli there plus atol of the largest such sum.      *)
Balanced(T, R, rtol, atol) ==
  LET Nx == Len(R)  Ny == Len(R[1])
      S == AddTerms(T)
      M == Grid(Nx, Ny, LAMBDA i, j : CSum([k \in 1..(Len(T) + 1) |->
              RAbs(IF k > Len(T) THEN R[i][j] ELSE T[k][i][j])]))
      a == CMul(atol, RMaxAbs(Flat(M)))
  IN \A i \in 1..Nx : \A j \in 1..Ny :
        RLe(RAbs(CSub(S[i][j], R[i][j])), CAdd(a, CMul(rtol, M[i][j])))

(* F and G agree up to rtol in every cell and atol times a given scale *)
GNear(F, G, rtol, atol) ==
  \A i \in 1..Len(F) : \A j \in 1..Len(F[i]) : RClose(F[i][j], G[i][j], rtol, atol)
(* size of the summands of a transverse component: differences of F may cancel *)
CurlScale(g, m, pol, eps, F) ==
  LET d == RMaxAbs(<<RMaxAbs(g.xf), RMaxAbs(g.xb), RMaxAbs(g.yf), RMaxAbs(g.yb)>>)
      e == IF pol = "Ez" THEN RAbs(m.mu)
           ELSE RAbs(CMul(m.ep, RMin(Flat(Map1(eps, LAMBDA z : RAbs(z))))))
  IN CDiv(CMul(d, RMaxAbs(Flat(F))), CMul(m.om, e))

Solves(g, m, pol, eps, F, src, rtol, atol) ==
  GFinite(F) /\ Balanced(Terms(g, m, pol, eps, F), RhsOf(m, src), rtol, atol)
=============================================================================
