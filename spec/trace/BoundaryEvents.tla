--------------------------- MODULE BoundaryEvents ----------------------------
(* Physical meaning of the boundaries: relations between runs on related grids. *)
EXTENDS SimEvents

Roll(F, sx, sy) == LET nx == Len(F) ny == Len(F[1]) IN
  Grid(nx, ny, LAMBDA i, j : F[Wrap(i - sx, nx)][Wrap(j - sy, ny)])

(* object b is object a moved by (sx, sy) along axes without layers             *)
ShiftedClauses(tr, st, e) ==
  LET a == Obj(st, e.o)  b == Obj(st, e.o2)  q == a.q
      applicable == (e.sx = 0 \/ q.np[1] = 0) /\ (e.sy = 0 \/ q.np[2] = 0)
         /\ a.s.lin # NoField /\ b.s.lin # NoField
         /\ GSame(Arr(tr, b.s.lin.eps), Roll(Arr(tr, a.s.lin.eps), e.sx, e.sy))
         /\ GSame(Arr(tr, b.s.lin.src), Roll(Arr(tr, a.s.lin.src), e.sx, e.sy))
      mx(x) == RMaxAbs(Flat(Arr(tr, a.obs.lin[Comp[q.pol][x]])))
      sc(x) == IF Comp[q.pol][x] = q.pol THEN mx(x)      \* one of the transverse components may vanish
               ELSE RMax([y \in 1..3 |-> IF Comp[q.pol][y] = q.pol THEN 0 ELSE mx(y)])
      p == a.s.lin
      noise(x) == IF Comp[q.pol][x] = q.pol THEN 0       \* or both, up to rounding
                  ELSE CMul(CN("1e-10"), CurlScale(DiscrOf(q, p), MediumOf(q, p), q.pol, Arr(tr, p.eps), Arr(tr, a.obs.lin[q.pol])))
  IN IF ~applicable THEN <<"MACHINE:the objects are not shifted copies">>
     ELSE IF \E x \in 1..3 : ~Good(tr, a.obs.lin[Comp[q.pol][x]], q) \/ ~Good(tr, b.obs.lin[Comp[q.pol][x]], q)
       THEN <<"C03:a field component is missing or misshapen">>
     ELSE Cat([x \in 1..3 |->
       V(GNear(Arr(tr, b.obs.lin[Comp[q.pol][x]]), Roll(Arr(tr, a.obs.lin[Comp[q.pol][x]]), e.sx, e.sy),
               0, CAdd(CMul(CN("1e-6"), sc(x)), noise(x))), "C03:shifted setup, but fields are not shifted")])

(* the windows of e.n x e.m cells at e.at (in a) and e.at2 (in b) see the same   *)
(* setup; only the absorbing layers or the distance to them differ               *)
Window(F, at, n, m) == Grid(n, m, LAMBDA i, j : F[at[1] + i][at[2] + j])
Bound(np) == IF np >= 15 THEN CN("0.0006") ELSE IF np >= 10 THEN CN("0.003") ELSE CN("0.01")
AgreeClauses(tr, st, e) ==
  LET a == Obj(st, e.o)  b == Obj(st, e.o2)
      np == IF a.q.np[1] > 0 THEN a.q.np[1] ELSE a.q.np[2]
      A == Arr(tr, a.obs.lin[a.q.pol])  B == Arr(tr, b.obs.lin[b.q.pol])
  IN IF ~GSame(Window(Arr(tr, a.s.lin.src), e.at, e.n, e.m), Window(Arr(tr, b.s.lin.src), e.at2, e.n, e.m))
     THEN <<"MACHINE:windows of different setups">>
     ELSE IF ~Good(tr, a.obs.lin[a.q.pol], a.q) \/ ~Good(tr, b.obs.lin[b.q.pol], b.q) THEN <<"C03:a field is missing or misshapen">>
     ELSE LET P == Window(A, e.at, e.n, e.m)  Q == Window(B, e.at2, e.n, e.m) IN
       V(GNear(P, Q, 0, CMul(Bound(np), RMaxAbs(Flat(Q)))), "C03:reflection from the absorbing layers")

(* full-span power through successive lines, from the last one before the layer *)
(* on side e.side to the outermost one, counted outwards                         *)
LayerClauses(tr, st, e) ==
  LET ob == Obj(st, e.o)  q == ob.q
      np == IF e.dir = "x" THEN q.np[1] ELSE q.np[2]
      S == e.ret
      last == CDiv(S[Len(S)], S[1])
  IN Cat(<<
    V(RLt(0, S[1]), "C03:no power reaches the absorbing layer"),
    V(\A x \in 1..(Len(S) - 1) : RLe(S[x + 1], CAdd(S[x], CMul(CN("1e-7"), S[1]))), "C03:power grows within the absorbing layer"),
    V(RLt(last, IF np >= 15 THEN CN("0.006") ELSE IF np >= 10 THEN CN("0.045") ELSE CN("0.12")), "C03:layer does not absorb") >>)

(* lossless medium with absorbing layers: the source gives power                 *)
GivesClauses(tr, st, e) ==
  LET ob == Obj(st, e.o)  q == ob.q
      P == Arr(tr, ob.obs.lin[q.pol])  J == Arr(tr, ob.s.lin.src)
      given == CNeg(CRe(CDot(Flat(Map1(P, LAMBDA z : CConj(z))), Flat(J))))
  IN V(RLe(CMul(CN("-1e-7"), CMul(Norm2(P), Norm2(J))), given), "C03:the source receives power from outside")

(* the wave equation in cells outside the layers, without any stretching         *)
InteriorClauses(tr, st, e) ==
  LET ob == Obj(st, e.o)  q == ob.q  p == ob.s.lin
      F == Arr(tr, ob.obs.lin[q.pol])  eps == Arr(tr, p.eps)
      T == Terms(Discr([Nx |-> q.Nx, Ny |-> q.Ny, dl |-> q.dl, L0 |-> q.L0, om |-> p.omOp, np |-> <<0, 0>>]),
                 Medium([L0 |-> q.L0, om |-> p.omOp]), q.pol, eps, F)
      R == RhsOf(MediumOf(q, p), Arr(tr, p.src))
      S == AddTerms(T)
      X == PlainX(q, p)  Y == PlainY(q, p)
      big == RMaxAbs(<<RMaxAbs(Flat(T[1])), RMaxAbs(Flat(T[2])), RMaxAbs(Flat(T[3]))>>)
  IN IF ~Good(tr, ob.obs.lin[q.pol], q) THEN <<"C03:field missing">> ELSE
     V(\A i \in 1..q.Nx : \A j \in 1..q.Ny :
        (X[i] /\ Y[j]) => RClose(S[i][j], R[i][j], CN("1e-6"), CMul(CN("1e-8"), big)),
       "C03:equations outside of the layers")

BoundaryEvs == {"shifted", "agree", "layer", "gives", "interior"}
BoundaryClauses(tr, st, e) ==
  CASE e.ev = "shifted" -> ShiftedClauses(tr, st, e)
    [] e.ev = "agree" -> AgreeClauses(tr, st, e)
    [] e.ev = "layer" -> LayerClauses(tr, st, e)
    [] e.ev = "gives" -> GivesClauses(tr, st, e)
    [] e.ev = "interior" -> InteriorClauses(tr, st, e)
=============================================================================
