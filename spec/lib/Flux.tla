-------------------------------- MODULE Flux --------------------------------
(* Discrete Poynting vector, normal components on cell edges, over CNum only.  *)
(* f = <<transverse 1, transverse 2, primary>> (Hx, Hy, Ez or Ex, Ey, Hz).     *)
(* All values are twice the time average, real numbers as CNum.                *)
EXTENDS Maxwell

SxEdge(g, pol, f) == LET P == AvgX(g, f[3]) IN
  IF pol = "Ez" THEN Map2(P, f[2], LAMBDA e, h : CNeg(CRe(CMul(e, CConj(h)))))
  ELSE Map2(P, f[2], LAMBDA h, e : CRe(CMul(e, CConj(h))))
SyEdge(g, pol, f) == LET P == AvgY(g, f[3]) IN
  IF pol = "Ez" THEN Map2(P, f[1], LAMBDA e, h : CRe(CMul(e, CConj(h))))
  ELSE Map2(P, f[1], LAMBDA h, e : CNeg(CRe(CMul(e, CConj(h)))))

(* power through the vertical line at edge i (between columns i-1 and i),      *)
(* rows a..b                                                                   *)
LineX(g, pol, f, dl, i, a, b) == LET S == SxEdge(g, pol, f) IN
  CMul(dl, CDiv(CSum([k \in 1..(b - a + 1) |-> S[i][a + k - 1]]), 2))
LineY(g, pol, f, dl, j, a, b) == LET S == SyEdge(g, pol, f) IN
  CMul(dl, CDiv(CSum([k \in 1..(b - a + 1) |-> S[a + k - 1][j]]), 2))

(* net power out of the block of cells i1..i2 x j1..j2 (its edges are i1, i2+1, *)
(* j1, j2+1)                                                                    *)
NetOut(g, pol, f, dl, i1, i2, j1, j2) ==
  LET X == SxEdge(g, pol, f)  Y == SyEdge(g, pol, f)
      xs == [k \in 1..(j2 - j1 + 1) |-> CSub(X[Wrap(i2 + 1, g.Nx)][j1 + k - 1], X[i1][j1 + k - 1])]
      ys == [k \in 1..(i2 - i1 + 1) |-> CSub(Y[i1 + k - 1][Wrap(j2 + 1, g.Ny)], Y[i1 + k - 1][j1])]
  IN CMul(dl, CDiv(CAdd(CSum(xs), CSum(ys)), 2))
=============================================================================
