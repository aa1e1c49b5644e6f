---------------------------- MODULE StructEvents -----------------------------
(* Structure generators.  Every cell carries the coordinates of the grid        *)
(* linspace(-N/2 dl, N/2 dl, N); a shape is a set of half planes and strips.    *)
(* A cell nearer to an edge of some shape than rounding allows is not judged.   *)
EXTENDS ToolEvents

ShapeOf(tr, k) == <<tr.arr[k].sh[1], tr.arr[k].sh[2]>>
Half(a) == CDiv(a, 2)
Coord(N, dl, i) == IF N = 1 THEN CMul(Half(-N), dl)
                   ELSE CAdd(CMul(Half(-N), dl), CDiv(CMul(i - 1, CMul(N, dl)), N - 1))
Cells1(x, dl) == RTrunc(CDiv(x, dl))                 \* int(x/dl)
(* a condition is [v, lo, hi]: lo < v < hi, bounds being <<x>> or <<>>; a shape is *)
(* a sequence of conditions                                                        *)
Free == <<>>
Between(v, lo, hi) == [v |-> v, lo |-> lo, hi |-> hi]
Within(v, c, h) == Between(v, <<CSub(c, h)>>, <<CAdd(c, h)>>)
Bounds(b) == {b[k] : k \in 1..Len(b)}
Sat(c, x, y) == LET p == IF c.v = "x" THEN x ELSE IF c.v = "y" THEN y ELSE RAbs(x)
  IN (\A b \in Bounds(c.lo) : RLt(b, p)) /\ (\A b \in Bounds(c.hi) : RLt(p, b))
InShape(sh, x, y) == \A k \in 1..Len(sh) : Sat(sh[k], x, y)
NearEdge(sh, x, y, tol) == \E k \in 1..Len(sh) :
  LET c == sh[k]  p == IF c.v = "x" THEN x ELSE IF c.v = "y" THEN y ELSE RAbs(x)
  IN \E b \in Bounds(c.lo) \cup Bounds(c.hi) : RClose(b, p, 0, tol)

ShapeXY(e) ==
  LET p == e.p  dl == p.dl  L2 == CMul(2, p.l)
      nx(x) == 2 * e.np[1] + Cells1(x, dl)
      ny(y) == 2 * e.np[2] + Cells1(y, dl)
  IN CASE e.kind \in {"two_port", "three_port", "N_port"} -> <<nx(CAdd(L2, p.L)), ny(CAdd(p.H, CMul(2, p.spc)))>>
       [] e.kind = "ortho_port" -> <<nx(CAdd(L2, p.L)), ny(CAdd(L2, p.H))>>
       [] e.kind = "accelerator" -> <<nx(CAdd(CMul(4, p.spc), CAdd(CMul(2, p.L), p.gap))), Cells1(CMul(p.beta, p.lambda0), dl)>>
       [] e.kind = "accelerator_multi" -> <<nx(CAdd(CMul(4, p.spc), CMul(e.n, CAdd(CMul(2, p.L), p.gap)))), Cells1(CMul(p.beta, p.lambda0), dl)>>

(* material shapes and design shapes                                            *)
Port(e, N) ==
  LET p == e.p  dl == p.dl
      par == CSub(Half(N[2]), N[2] \div 2)           \* 0 or 1/2
      wpx == CMul(dl, Half(Cells1(p.w, dl)))            \* half the width of a guide, whole cells
      row(d) == CMul(dl, RTrunc(CAdd(par, CDiv(d, CMul(2, dl)))))
      box == << Within("x", 0, Half(p.L)), Within("y", 0, Half(p.H)) >>
      guideIn(y0) == << Between("x", Free, <<0>>), Within("y", y0, wpx) >>
      guideOut(y0) == << Between("x", <<0>>, Free), Within("y", y0, wpx) >>
      wide == << Within("y", 0, Half(p.w)) >>
      up == Between("x", <<CNeg(Half(p.w))>>, <<CAdd(Half(p.w), Half(dl))>>)
      slab(c) == << Between("ax", <<CAdd(c, Half(p.gap))>>, <<CAdd(c, CAdd(Half(p.gap), p.L))>>) >>
  IN CASE e.kind = "two_port" -> [mat |-> << wide >>, des |-> << box >>]
       [] e.kind = "three_port" -> [mat |-> << box, guideIn(0), guideOut(row(CNeg(p.d))), guideOut(row(p.d)) >>, des |-> << box >>]
       [] e.kind = "N_port" -> [mat |-> << box, guideIn(CN("0.01")) >> \o
             [k \in 1..e.n |-> guideOut(CMul(CSub(k - 1, Half(e.n - 1)), p.d))], des |-> << box >>]
       [] e.kind = "ortho_port" -> [mat |-> << wide, << up, Between("y", <<0>>, Free) >> >>,
             des |-> << << Within("x", 0, Half(p.L)), Within("y", 0, Half(p.w)) >>,
                        << Within("x", 0, Half(p.L2)), Within("y", 0, Half(p.H2)) >>,
                        << up, Between("y", <<CNeg(Half(p.H2))>>, <<Half(p.H)>>) >> >>]
       [] e.kind = "accelerator" -> [mat |-> << slab(0) >>, des |-> << slab(0) >>]
       [] e.kind = "accelerator_multi" ->
             LET all == [k \in 1..(e.n \div 2) + 1 |-> slab(CMul(k - 1, CAdd(p.gap, p.L)))] IN [mat |-> all, des |-> all]

Raster(tr, ix, N, dl, shapes, in, out) ==
  LET g == Arr(tr, ix)
      xs == TLCEval([i \in 1..N[1] |-> Coord(N[1], dl, i)])
      ys == TLCEval([j \in 1..N[2] |-> Coord(N[2], dl, j)])
      tol == CMul(CN("1e-7"), dl)
  IN \A i \in 1..N[1] : \A j \in 1..N[2] :
       \/ \E k \in 1..Len(shapes) : NearEdge(shapes[k], xs[i], ys[j], tol)
       \/ RClose(g[i][j], IF \E k \in 1..Len(shapes) : InShape(shapes[k], xs[i], ys[j]) THEN in ELSE out, CN("1e-12"), CN("1e-12"))

Structure(tr, e) ==
  IF e.kind = "accelerator_multi" /\ e.n % 2 = 0 THEN V(e.exc # "", "C15:even number of channels accepted")
  ELSE IF e.exc # "" THEN <<"C15:generator raised">>
  ELSE LET N == ShapeXY(e)  s == Port(e, N) IN
    IF ~(ShapeOf(tr, e.eps) = N /\ ShapeOf(tr, e.design) = N) THEN <<"C15:size of the grid">>
    ELSE Cat(<< V(Raster(tr, e.eps, N, e.p.dl, s.mat, e.epsm, e.bg), "C15:material of the structure"),
                V(Raster(tr, e.design, N, e.p.dl, s.des, 1, 0), "C15:design region") >>)

(* coordinate arrays, and material assigned by arbitrary regions                *)
GridEv(tr, e) ==
  LET N == <<e.N[1], e.N[2]>> IN
  IF e.exc # "" THEN <<"C15:grid raised">>
  ELSE IF ~(ShapeOf(tr, e.xs) = N /\ ShapeOf(tr, e.ys) = N) THEN <<"C15:size of the coordinate arrays">>
  ELSE V(\A i \in 1..N[1] : \A j \in 1..N[2] :
           /\ RClose(Arr(tr, e.xs)[i][j], Coord(N[1], e.dl, i), CN("1e-9"), CMul(CN("1e-9"), e.dl))
           /\ RClose(Arr(tr, e.ys)[i][j], Coord(N[2], e.dl, j), CN("1e-9"), CMul(CN("1e-9"), e.dl)), "C15:coordinates of the grid")
(* e.regs: shapes made of conditions, applied to the arrays e.xs, e.ys           *)
RegionsEv(tr, e) ==
  IF e.exc # "" THEN <<"C15:applying regions raised">>
  ELSE LET X == Arr(tr, e.xs)  Y == Arr(tr, e.ys) IN
   IF ShapeOf(tr, e.ret) # ShapeOf(tr, e.xs) THEN <<"C15:size of the permittivity">>
   ELSE V(\A i \in 1..Len(X) : \A j \in 1..Len(X[1]) :
          \/ \E k \in 1..Len(e.regs) : NearEdge(e.regs[k], X[i][j], Y[i][j], CN("1e-12"))
          \/ RClose(Arr(tr, e.ret)[i][j], IF \E k \in 1..Len(e.regs) : InShape(e.regs[k], X[i][j], Y[i][j]) THEN e.epsm ELSE e.bg, CN("1e-12"), 0),
        "C15:material of the regions")

StructEvs == {"structure", "grid", "regions"}
StructClauses(tr, e) ==
  Cat(<< CASE e.ev = "structure" -> Structure(tr, e)
           [] e.ev = "grid" -> GridEv(tr, e)
           [] e.ev = "regions" -> RegionsEv(tr, e),
         V(e.mut = <<>>, "C15:a generator modified its arguments") >>)
=============================================================================
