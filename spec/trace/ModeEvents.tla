----------------------------- MODULE ModeEvents ------------------------------
(* Mode sources.  A mode is [neff, dir, c, w, scale, order]: the order-th       *)
(* eigenmode, counted outwards from the guessed index neff, of the line of      *)
(* cells across dir at c (0-based centre), w cells wide.                        *)
EXTENDS RunEvents

LineSpan(q, m) ==       \* 1-based <<first, last>> along the line
  LET c == IF m.dir = "x" THEN m.c[2] ELSE m.c[1]
      n == IF m.dir = "x" THEN q.Ny ELSE q.Nx
      b == HalfTrunc(2 * c + m.w)
  IN <<HalfTrunc(2 * c - m.w) + 1, IF b < n THEN b ELSE n>>
LineCells(q, m) == LET s == LineSpan(q, m) IN
  [k \in 1..(s[2] - s[1] + 1) |-> IF m.dir = "x" THEN <<m.c[1] + 1, s[1] + k - 1>> ELSE <<s[1] + k - 1, m.c[2] + 1>>]
LineEps(q, m, eps) == LET L == LineCells(q, m) IN [k \in 1..Len(L) |-> <<eps[L[k][1]][L[k][2]]>>]   \* an n x 1 grid

(* the transverse equation of a line, periodic over its ends                    *)
LineOp(q, om, pol, eps, v) ==
  LET g == Discr([Nx |-> Len(eps), Ny |-> 1, dl |-> q.dl, L0 |-> q.L0, om |-> om, np |-> <<0, 0>>])
      md == Medium([L0 |-> q.L0, om |-> om])
      k2 == CMul(CMul(md.om, md.om), CMul(md.mu, md.ep))
      d == IF pol = "Ez" THEN DxF(g, DxB(g, v))
           ELSE Map2(eps, DxF(g, Map2(DxB(g, v), AvgX(g, eps), LAMBDA a, b : CDiv(a, b))), LAMBDA a, b : CMul(a, b))
  IN <<d, Map2(eps, v, LAMBDA a, b : CMul(k2, CMul(a, b)))>>

(* w.vals, w.vecs (rows): all eigenpairs of the line                            *)
Col(F, k) == [x \in 1..Len(F[k]) |-> <<F[k][x]>>]
SpectrumOK(q, om, pol, eps, vals, X) ==
  LET n == Len(eps)
      unit(k) == [x \in 1..n |-> <<IF x = k THEN CN(1) ELSE CN(0)>>]
      diag == TLCEval([k \in 1..n |-> LET T == LineOp(q, om, pol, eps, unit(k)) IN CAdd(T[1][k][1], T[2][k][1])])
      big == RMaxAbs(diag)
  IN /\ Len(vals) = n /\ Len(X) = n
     /\ \A k \in 1..n : LET v == Col(X, k) IN
          /\ RClose(Norm2(v), 1, CN("1e-9"), 0)
          /\ LET T == LineOp(q, om, pol, eps, v) IN
             \A x \in 1..n : RClose(CAdd(T[1][x][1], T[2][x][1]), CMul(vals[k], v[x][1]), 0, CMul(CN("1e-7"), big))
     /\ RClose(CSum(vals), CSum(diag), 0, CMul(CN("1e-7"), CMul(n, big)))

(* index of the requested eigenpair, 0 if it is not clearly determined           *)
Wanted(q, om, m, vals, big) ==
  LET md == Medium([L0 |-> q.L0, om |-> om])
      b == CMul(CMul(md.om, m.neff), RSqrt(CMul(md.mu, md.ep)))
      sigma == CMul(b, b)
      d == TLCEval([k \in 1..Len(vals) |-> RAbs(CSub(vals[k], sigma))])
      ok(k) == /\ Cardinality({j \in 1..Len(vals) : RLt(d[j], d[k])}) = m.order - 1
               /\ \A j \in 1..Len(vals) \ {k} : ~RClose(d[j], d[k], CN("1e-3"), CMul(CN("1e-5"), big))
                     /\ ~RClose(vals[j], vals[k], 0, CMul(CN("1e-4"), big))
      C == {k \in 1..Len(vals) : ok(k)}
  IN IF C = {} THEN 0 ELSE CHOOSE k \in C : TRUE

(* the first Cnt modes were set up (all of them unless the event says otherwise) *)
Cnt(ob, e) == IF Has(e, "cnt") THEN e.cnt ELSE Len(ob.s.modes)
ProfileClauses(tr, ob, e, n) ==
  LET q == ob.q  m == ob.s.modes[n]  w == e.wit[n]
      L == LineCells(q, m)
      eps == LineEps(q, m, Arr(tr, ob.s.eps))
      F == Arr(tr, e.obs.src)
      hidden == UNION {Range(LineCells(q, ob.s.modes[k])) : k \in (n + 1)..Cnt(ob, e)}
      seen == {x \in 1..Len(L) : L[x] \notin hidden}
      V1 == Arr(tr, w.vecs)
      k == Wanted(q, ob.s.om, m, w.vals, RMaxAbs(w.vals))
      v == Col(V1, k)
      real == (\A x \in 1..Len(L) : CEq(CIm(eps[x][1]), 0)) /\ (\A x \in 1..Len(L) : CEq(CIm(v[x][1]), 0))
      at(x) == F[L[x][1]][L[x][2]]
      tol == CMul(CN("1e-4"), RAbs(m.scale))
      same(sg) == \A x \in seen : RClose(at(x), CMul(CMul(sg, m.scale), v[x][1]), 0, tol)
  IN IF ~SpectrumOK(q, ob.s.om, q.pol, eps, w.vals, V1) THEN <<"MACHINE:spectrum of the line">>
     ELSE Cat(<<
       V(\A x \in seen : CEq(CIm(at(x)), 0), "C14:profile is not real"),
       V(Cardinality(seen) < Len(L) \/ RClose(RNorm([x \in 1..Len(L) |-> at(x)]), RAbs(m.scale), CN("1e-5"), 0), "C14:norm of the profile is not the scale"),
       V(k = 0 \/ \A x \in seen : RClose(RAbs(at(x)), CMul(RAbs(m.scale), RAbs(v[x][1])), 0, tol), "C14:profile is not that of the requested eigenmode"),
       V(k = 0 \/ ~real \/ same(1) \/ same(-1), "C14:signs of the profile") >>)
SetupClauses(tr, ob, e) ==
  IF e.exc # "" THEN <<"C14:setting up the modes raised">>
  ELSE IF ~Good(tr, e.obs.src, ob.q) THEN <<"C14:source misshapen">>
  ELSE LET q == ob.q  F == Arr(tr, e.obs.src)  old == Arr(tr, ob.s.src)
           line == UNION {Range(LineCells(q, ob.s.modes[k])) : k \in 1..Cnt(ob, e)}
       IN Cat(<< V(\A i \in 1..q.Nx : \A j \in 1..q.Ny : <<i, j>> \notin line => CEq(F[i][j], old[i][j]), "C14:source off the line changed") >>
              \o [n \in 1..Cnt(ob, e) |-> ProfileClauses(tr, ob, e, n)])

(* straight waveguide for the normalisation                                      *)
IsCore(z) == RLt(1, z) \/ (CEq(CRe(z), 1) /\ RLt(0, CMul(CMk(0, -1), CIm(z))))
NormEps(q, m, eps) == LET big == RMaxAbs(Flat(eps)) IN
  Grid(q.Nx, q.Ny, LAMBDA i, j : IF IsCore(IF m.dir = "x" THEN eps[m.c[1] + 1][j] ELSE eps[i][m.c[2] + 1]) THEN big ELSE CN(1))
(* object e.o2 is the straight waveguide with its own mode as the only source;   *)
(* nothing is asked where that mode is not determined up to its sign             *)
PowerOfClauses(tr, st, e) ==
  LET a == Obj(st, e.o)  b == Obj(st, e.o2)  q == a.q
      m == a.s.modes[Len(a.s.modes)]
      L == LineCells(q, m)
      B == Arr(tr, b.s.src)
      guide == NormEps(q, m, Arr(tr, a.s.eps))
      leps == LineEps(q, m, guide)
      Xs == Arr(tr, e.wit.vecs)
      k == Wanted(q, a.s.om, m, e.wit.vals, RMaxAbs(e.wit.vals))
      det == k # 0 /\ \A x \in 1..Len(leps) : CEq(CIm(Xs[k][x]), 0)
      ok == /\ b.q = q /\ b.s.om = a.s.om /\ b.s.omOp = a.s.om /\ b.s.lin # NoField
            /\ LET E2 == Arr(tr, b.s.eps) IN \A i \in 1..q.Nx : \A j \in 1..q.Ny : RClose(E2[i][j], guide[i][j], CN("1e-12"), 0)
            /\ \A i \in 1..q.Nx : \A j \in 1..q.Ny : <<i, j>> \notin Range(L) => CEq(B[i][j], 0)
            /\ det => \A x \in 1..Len(L) : RClose(B[L[x][1]][L[x][2]], CMul(m.scale, Xs[k][x]), CN("1e-9"), 0)
      P == [dir |-> m.dir, w |-> m.w, c |-> IF m.dir = "x" THEN <<q.Nx - m.c[1], m.c[2]>> ELSE <<m.c[1], q.Ny - m.c[2]>>]
  IN IF ~(ok /\ SpectrumOK(q, a.s.om, q.pol, leps, e.wit.vals, Xs)) THEN <<"MACHINE:not the straight waveguide">>
     ELSE V(~det \/ RClose(a.obs.win, ProbeValue(tr, q, P, b.obs.lin), ET, CMul(CN("1e-5"), ProbeScale(tr, q, b.obs.lin))),
            "C14:input power is not that of the straight waveguide")

ModeApply(ob, e) ==
  CASE e.ev = "add_mode" -> AddMode(ob.s, e.mode)
    [] e.ev = "scale_mode" -> [ob.s EXCEPT !.modes[1].scale = e.scale]
    [] e.ev = "setup_modes" -> SetSrc(ob.s, e.obs.src)
    [] OTHER -> ob.s
ModeEvs == {"add_mode", "scale_mode", "setup_modes", "power_of"}
ModeClauses(tr, st, e) ==
  LET ob == Obj(st, e.o) IN
  Cat(<< CASE e.ev = "setup_modes" -> SetupClauses(tr, ob, e)
           [] e.ev = "power_of" -> PowerOfClauses(tr, st, e)
           [] OTHER -> V(e.exc = "", "C14:defining a mode raised"),
         IF e.exc # "" THEN <<>> ELSE ObsClauses(tr, ob, ModeApply(ob, e), e, "C14,C02") >>)
ModeAfter(st, e) == LET ob == Obj(st, e.o) IN
  PutObj(st, e.o, [ob EXCEPT !.s = ModeApply(ob, e), !.obs = e.obs])
=============================================================================
