----------------------------- MODULE SimEvents ------------------------------
(* Events on Simulation objects: the state after the event according to         *)
(* Session, and the clauses relating recorded arguments, results and            *)
(* observations.  A clause is named "<owners>:<text>".                          *)
(*                                                                              *)
(* Recorded arrays are deduplicated per trace: equal indices mean equal shape   *)
(* and equal bits, index 0 means absent.                                        *)
EXTENDS TraceLib, Session, Kerr, Flux

Comp == [Ez |-> <<"Hx", "Hy", "Ez">>, Hz |-> <<"Ex", "Ey", "Hz">>]
Other == [Ez |-> {"Ex", "Ey", "Hz"}, Hz |-> {"Hx", "Hy", "Ez"}]
RT == CN("1e-6")
AT == CN("1e-9")

Arr(tr, k) == tr.arr[k].v
Sh(tr, k) == tr.arr[k].sh
Good(tr, k, q) == k > 0 /\ Sh(tr, k) = <<q.Nx, q.Ny>>
Zero(tr, k) == LET F == Arr(tr, k) IN \A i \in 1..Len(F) : \A j \in 1..Len(F[i]) : CEq(F[i][j], 0)
Fin(tr, k) == GFinite(Arr(tr, k))

Nls(tr, ns) == TLCEval([k \in 1..Len(ns) |->
   [chi |-> ns[k].chi, reg |-> Arr(tr, ns[k].reg), scale |-> ns[k].scale, emax |-> ns[k].emax]])

(* the concrete quantities of provenance p for an object constructed as q *)
DiscrOf(q, p) == Discr([Nx |-> q.Nx, Ny |-> q.Ny, dl |-> q.dl, L0 |-> q.L0, om |-> p.omOp, np |-> q.np])
MediumOf(q, p) == Medium([L0 |-> q.L0, om |-> p.om])
(* the operator is built at frequency omOp, everything else uses om *)
WaveTerms(q, p, eps, F) == Terms(DiscrOf(q, p), Medium([L0 |-> q.L0, om |-> p.omOp]), q.pol, eps, F)

(* f = <<transverse 1, transverse 2, primary>> are a solution for provenance p  *)
(* and total permittivity eps                                                   *)
SolutionClauses(tr, q, p, eps, f, avg, rt, own) ==
  LET g == DiscrOf(q, p)
      m == MediumOf(q, p)
      F == Arr(tr, f[3])
      ex == IF avg THEN AvgX(g, eps) ELSE eps
      ey == IF avg THEN AvgY(g, eps) ELSE eps
      sc == CMul(CN("1e-12"), RMaxAbs(<<CurlScale(g, m, q.pol, eps, F), CurlScale(g, m, q.pol, ex, F), CurlScale(g, m, q.pol, ey, F)>>))
      T1 == IF q.pol = "Ez" THEN HxOf(g, m, F) ELSE ExOf(g, m, ey, F)
      T2 == IF q.pol = "Ez" THEN HyOf(g, m, F) ELSE EyOf(g, m, ex, F)
  IN IF \E k \in 1..3 : ~Good(tr, f[k], q) THEN <<own \o ":a field component is missing or misshapen">>
     ELSE IF \E k \in 1..3 : ~Fin(tr, f[k]) THEN <<own \o ":a field component is not finite">>
     ELSE Cat(<<
       V(Balanced(WaveTerms(q, p, eps, F), RhsOf(m, Arr(tr, p.src)), rt, AT), own \o ":wave equation"),
       V(GNear(Arr(tr, f[1]), T1, RT, sc), own \o ":curl relation, first transverse component"),
       V(GNear(Arr(tr, f[2]), T2, RT, sc), own \o ":curl relation, second transverse component"),
       V(Zero(tr, p.src) => Zero(tr, f[3]), own \o ":zero source gives zero field") >>)

Stored(q, F) == [k \in 1..3 |-> F[Comp[q.pol][k]]]
Absent(q, F) == \A c \in Other[q.pol] : F[c] = 0
AllAbsent(F) == \A c \in DOMAIN F : F[c] = 0

(***************************************************************************)
(* State of the validation: per object its Session state s, construction   *)
(* record q, and last observation.                                         *)
(***************************************************************************)
Obj(st, o) == st.obj[o]
PutObj(st, o, r) == [st EXCEPT !.obj = (o :> r) @@ @]

(* After e, the session state of the object must be t, and the observation must *)
(* agree with t; whatever e does not recompute is bit-wise the same as before.  *)
ObsClauses(tr, ob, t, e, own) ==
  LET o == e.obs
      p == ob.obs
      recomputedLin == t.lin # ob.s.lin \/ e.ev \in {"solve", "index_shift", "compute_J", "compute_dJ", "run", "check_deriv"}
      recomputedNl == t.nl # ob.s.nl \/ e.ev \in {"solve_nl", "index_shift", "run", "check_deriv"}
                     \/ (e.ev \in {"compute_J", "compute_dJ"} /\ \E n \in 1..Len(e.args) : e.args[n].nl)
  IN Cat(<<
    V(o.eps = t.eps, own \o ":permittivity"),
    V(o.src = t.src, own \o ":source"),
    V(CEq(o.om, t.om), own \o ":frequency"),
    V(o.rho = t.rho, own \o ":density"),
    V(o.nnl = Len(t.nls), own \o ":number of nonlinearities"),
    V(o.nmodes = Len(t.modes), own \o ":number of modes"),
    V(e.ev = "setup_modes" \/ o.win = p.win, own \o ":input power"),
    V(o.pol = ob.q.pol /\ o.Nx = ob.q.Nx /\ o.Ny = ob.q.Ny /\ o.np = ob.q.np
      /\ CEq(o.dl, ob.q.dl) /\ CEq(o.L0, ob.q.L0), own \o ":fixed attributes"),
    V((t.lin = NoField) => AllAbsent(o.lin), own \o ":linear fields must be absent"),
    V((t.nl = NoField) => AllAbsent(o.nl), own \o ":nonlinear fields must be absent"),
    V((t.lin # NoField /\ ~recomputedLin) => o.lin = p.lin, own \o ":linear fields changed"),
    V((t.nl # NoField /\ ~recomputedNl) => o.nl = p.nl, own \o ":nonlinear fields changed"),
    V((t.lin # NoField) => Absent(ob.q, o.lin), own \o ":component of the other polarization present"),
    V((t.nl # NoField) => Absent(ob.q, o.nl), own \o ":component of the other polarization present")
  >>)

LinClauses(tr, q, t, f, avg, own) == SolutionClauses(tr, q, t.lin, Arr(tr, t.lin.eps), f, avg, RT, own)
(* the solution of the nonlinear problem: permittivity raised by its own field *)
NlClauses(tr, q, t, f, rt, own) ==
  IF Len(t.nl.nls) = 0 THEN SolutionClauses(tr, q, t.nl, Arr(tr, t.nl.eps), f, FALSE, rt, own)
  ELSE IF ~Good(tr, f[3], q) THEN <<own \o ":a field component is missing or misshapen">>
  ELSE LET eps == Arr(tr, t.nl.eps)
           tot == Add2(eps, EpsNl(Nls(tr, t.nl.nls), q.L0, eps, Arr(tr, f[3])))
       IN SolutionClauses(tr, q, t.nl, tot, f, FALSE, rt, own)

(***************************************************************************)
(* Construction                                                            *)
(***************************************************************************)
ValidArgs(a) ==
  /\ RLt(0, a.om) /\ RLt(0, a.L0) /\ a.pol \in {"Ez", "Hz"}
  /\ a.npList /\ Len(a.npv) = 2 /\ \A n \in 1..Len(a.npv) : RLe(0, a.npv[n])
NpOf(a) == [n \in 1..Len(a.npv) |-> RTrunc(a.npv[n])]
QOf(e) == [Nx |-> e.args.Nx, Ny |-> e.args.Ny, dl |-> e.args.dl, L0 |-> e.args.L0,
           np |-> NpOf(e.args), pol |-> e.args.pol]
NewClauses(tr, e) ==
  LET o == e.obs  a == e.args IN
  IF ~ValidArgs(a) THEN V(e.exc # "", "C21:invalid setup accepted")
  ELSE IF e.exc # "" THEN <<"C21,C01:valid setup rejected">>
  ELSE Cat(<<
    V(o.eps = a.eps, "C21,C01:permittivity reported differs from the one given"),
    V(CEq(o.om, a.om) /\ CEq(o.dl, a.dl) /\ CEq(o.L0, a.L0) /\ o.pol = a.pol /\ o.np = NpOf(a), "C21:attributes"),
    V(o.Nx = a.Nx /\ o.Ny = a.Ny, "C21:grid shape"),
    V(o.src > 0 /\ Sh(tr, o.src) = <<a.Nx, a.Ny>> /\ Zero(tr, o.src), "C21:source not zero"),
    V(Len(o.xr) = 2 /\ Len(o.yr) = 2 /\ CEq(o.xr[1], 0) /\ CEq(o.yr[1], 0)
      /\ RClose(o.xr[2], CMul(a.Nx, a.dl), CN("1e-12"), 0) /\ RClose(o.yr[2], CMul(a.Ny, a.dl), CN("1e-12"), 0),
      "C21:domain extents"),
    V(o.nmodes = 0 /\ o.nnl = 0 /\ o.rho = 0 /\ AllAbsent(o.lin) /\ AllAbsent(o.nl), "C21:initial state not empty") >>)

(***************************************************************************)
(* Session state after an event, in terms of its recorded arguments        *)
(***************************************************************************)
InitStyles == {"full", "halfway", "empty", "random", "random_sym"}
Apply(ob, e) ==
  LET s == ob.s IN
  CASE e.ev = "set_eps" -> SetEps(s, e.eps)
    [] e.ev = "set_src" -> SetSrc(s, e.src)
    [] e.ev = "set_om" -> SetOm(s, e.om)
    [] e.ev = "add_nl" -> IF e.exc = "" THEN AddNl(s, e.nl) ELSE s
    [] e.ev = "clear_nl" -> ClearNl(s)
    [] e.ev = "add_mode" -> AddMode(s, e.mode)
    [] e.ev = "setup_modes" -> SetSrc(s, e.obs.src)
    [] e.ev = "init_design" -> SetRho(IF e.style \in InitStyles THEN SetEps(s, e.obs.eps) ELSE s, e.obs.rho)
    [] e.ev = "solve" -> SolveLin(s)
    [] e.ev = "solve_nl" -> SolveNl(s, e.start # 0)
    [] e.ev = "index_shift" -> IndexShift(s)
    [] OTHER -> s

(***************************************************************************)
(* Linear and nonlinear solves                                             *)
(***************************************************************************)
SolveClauses(tr, ob, t, e) ==
  Cat(<< V(e.exc = "", "C01,C02:solve raised"),
         IF e.exc # "" THEN <<>> ELSE
         Cat(<< V(e.ret = Stored(ob.q, e.obs.lin), "C01:returned fields are not the stored ones"),
                LinClauses(tr, ob.q, t, e.ret, e.avg, "C01,C02") >>) >>)

(* Histories: entries of performed iterations, then zeros. *)
ConvLen(c, thr) ==    \* index of the first entry below the threshold, or the length
  LET below == {k \in 1..Len(c) : RLt(c[k], thr)} IN
  IF below = {} THEN Len(c) ELSE CHOOSE k \in below : \A l \in below : k <= l
Converged(c, thr) == \E k \in 1..Len(c) : RLt(c[k], thr)
Norm2(F) == RNorm(Flat(F))
RelChange(F, G) == CDiv(Norm2(Map2(F, G, LAMBDA a, b : CSub(a, b))), Norm2(F))

(* A witness is the sequence of iterates E0, E1, ... of the method; each step is *)
(* checked against its defining equation before the history is compared with it. *)
StepOK(tr, q, p, kind, E0, E1) ==
  LET eps == Arr(tr, p.eps)  ns == Nls(tr, p.nls)  g == DiscrOf(q, p)  m == MediumOf(q, p)
      zero == Map1(E0, LAMBDA z : CN(0))
      dE == Map2(E1, E0, LAMBDA a, b : CSub(a, b))
      tot0 == Add2(eps, EpsNl(ns, q.L0, eps, E0))
      rhs == RhsOf(m, Arr(tr, p.src))
  IN IF kind = "born" THEN Balanced(EzTerms(g, m, tot0, E1), rhs, CN("1e-7"), AT)
     ELSE Balanced(EzTerms(g, m, tot0, E0) \o EzTangentTerms(g, m, ns, q.L0, eps, E0, zero, dE), rhs, CN("1e-7"), AT)
WitnessOK(tr, q, p, e) ==
  \A k \in 1..(Len(e.wit) - 1) : StepOK(tr, q, p, e.wkind, Arr(tr, e.wit[k]), Arr(tr, e.wit[k + 1]))
HistoryClauses(tr, ob, t, e) ==
  IF Len(e.wit) < 2 THEN <<>>
  ELSE IF ~WitnessOK(tr, ob.q, t.nl, e) THEN <<"MACHINE:iteration witness is not a witness">>
  ELSE LET n == Len(e.wit) - 1
           w == [k \in 1..n |-> RelChange(Arr(tr, e.wit[k + 1]), Arr(tr, e.wit[k]))]
           clear(x) == RLt(CMul(x, CN("0.7")), e.thr) = RLt(CMul(x, CN("1.4")), e.thr) \* not on the threshold
           m == ConvLen(e.conv, e.thr)
       IN IF \E k \in 1..n : ~clear(w[k]) THEN <<>>
          ELSE IF RLt(e.thr, CN("9e-7"))    \* the last digits depend on the linear solver
          THEN V(\A k \in 1..(IF m < n THEN m ELSE n) : RClose(e.conv[k], w[k], CN("1e-2"), CN("1e-6")),
              "C05:reported convergence history is not that of the method")
          ELSE Cat(<<
            V(\A k \in 1..(IF m < n THEN m ELSE n) : RClose(e.conv[k], w[k], CN("1e-2"), CN("2e-7")),
              "C05:reported convergence history is not that of the method"),
            V(e.obs.epsnl > 0 /\ LET E == Arr(tr, IF e.wkind = "born" THEN e.wit[m] ELSE e.wit[m + 1])
                  IN m + 1 <= Len(e.wit) =>
                     GClose(Arr(tr, e.obs.epsnl), EpsNl(Nls(tr, t.nl.nls), ob.q.L0, Arr(tr, t.nl.eps), E), CN("1e-4"), CN("1e-6")),
              "C05:returned field was not solved with the Kerr term of the last iterate") >>)

SolveNlClauses(tr, ob, t, e) ==
  LET rt == RMax(<<RT, CMul(1000, e.thr)>>) IN
  IF e.exc # "" THEN <<"C05,C02:nonlinear solve raised">>
  ELSE Cat(<<
    V(e.ret = Stored(ob.q, e.obs.nl), "C05:returned fields are not the stored ones"),
    V(e.mustConverge => Converged(e.conv, RMax(<<e.thr, e.lvl>>)), "C05:solver does not converge on a weak nonlinearity"),
    V(Len(e.conv) = e.maxit, "C05:history does not have the length of the iteration limit"),
    V(\A k \in (ConvLen(e.conv, e.thr) + 1)..Len(e.conv) : CEq(e.conv[k], 0), "C05:iterations continued below the threshold"),
    V(~Converged(e.conv, e.thr) => \A k \in 1..Len(e.conv) : ~CEq(e.conv[k], 0), "C05:stopped early without convergence"),
    IF Converged(e.conv, e.thr) THEN NlClauses(tr, ob.q, t, e.ret, rt, "C05,C02") ELSE <<>>,
    (* a linear field that had to be solved first *)
    IF t.lin # NoField /\ ob.s.lin = NoField
      THEN LinClauses(tr, ob.q, t, Stored(ob.q, e.obs.lin), FALSE, "C05,C02,C01") ELSE <<>>,
    HistoryClauses(tr, ob, t, e) >>)

(***************************************************************************)
(* Kerr terms                                                              *)
(***************************************************************************)
Z3(tr, k, F) ==     \* scalar zero is recorded as a grid of zeros by the driver
  k > 0 /\ GClose(Arr(tr, k), F, CN("1e-9"), CN("1e-12"))
ComputeNlClauses(tr, ob, e) ==
  LET s == ob.s  eps == Arr(tr, s.eps)  ns == Nls(tr, s.nls)  E == Arr(tr, e.e)  o == e.obs IN
  IF e.exc # "" THEN <<"C06:evaluating the nonlinearity raised">>
  ELSE IF \E k \in {o.epsnl, o.dnlde, o.dnldeps} : ~Good(tr, k, ob.q) THEN <<"C06:nonlinear terms misshapen">>
  ELSE Cat(<<
    V(Z3(tr, o.epsnl, EpsNl(ns, ob.q.L0, eps, E)), "C06:nonlinear permittivity"),
    V(Z3(tr, o.dnlde, DnlDe(ns, ob.q.L0, eps, E)), "C06:derivative with respect to the field"),
    V(Z3(tr, o.dnldeps, DnlDeps(ns, ob.q.L0, eps, E)), "C06:derivative with respect to the permittivity") >>)

RootShift(eps, dn) == Map2(eps, dn, LAMBDA e, d :
   RAbs(CSub(RSqrt(CRe(CAdd(e, d))), RSqrt(CRe(e)))))
ShiftClauses(tr, ob, t, e) ==
  IF e.exc # "" THEN <<"C06,C02:index shift raised">>
  ELSE IF \E x \in 1..3 : ~Good(tr, Stored(ob.q, e.obs.nl)[x], ob.q) THEN <<"C06,C02:index shift did not store the fields">>
  ELSE LET f == Stored(ob.q, e.obs.nl) IN
    Cat(<< LinClauses(tr, ob.q, t, Stored(ob.q, e.obs.lin), FALSE, "C02,C06"),
           IF Converged(e.conv, e.thr) THEN NlClauses(tr, ob.q, t, f, RT, "C02,C06") ELSE <<>>,
           IF ~Good(tr, f[3], ob.q) \/ ~Good(tr, e.ret, ob.q) THEN <<"C06:index shift misshapen">>
           ELSE IF ~Converged(e.conv, e.thr) THEN <<>>
           ELSE V(GClose(Arr(tr, e.ret),
                   RootShift(Arr(tr, t.eps), EpsNl(Nls(tr, t.nls), ob.q.L0, Arr(tr, t.eps), Arr(tr, f[3]))),
                   CN("1e-6"), CN("1e-9")), "C06:index shift") >>)

AddNlClauses(e) ==
  V((e.exc = "") = (e.nltype = "kerr" /\ (e.nl.scale => e.emaxGiven)), "C06:nonlinearity wrongly accepted or rejected")

(***************************************************************************)
(* Probes                                                                  *)
(***************************************************************************)
(* Python slices count negative bounds from the far side.  int() truncates. *)
FromEnd(k, n) == IF k < 0 THEN k + n ELSE k
HalfTrunc(k) == IF k >= 0 THEN k \div 2 ELSE -((-k) \div 2)
ProbeRange(c, w, n) ==      \* 0-based [a, b)
  <<FromEnd(HalfTrunc(2 * c - w), n), FromEnd(HalfTrunc(2 * c + w), n)>>
ProbeValue(tr, q, e, F) ==
  LET g == [Nx |-> q.Nx, Ny |-> q.Ny]
      f == [k \in 1..3 |-> Arr(tr, F[Comp[q.pol][k]])]
      n == IF e.dir = "x" THEN <<q.Nx, q.Ny>> ELSE <<q.Ny, q.Nx>>
      c == IF e.dir = "x" THEN e.c ELSE <<e.c[2], e.c[1]>>
      r == ProbeRange(c[2], e.w, n[2])
      line == FromEnd(c[1], n[1]) + 1
  IN IF e.dir = "x" THEN LineX(g, q.pol, f, q.dl, line, r[1] + 1, r[2])
     ELSE LineY(g, q.pol, f, q.dl, line, r[1] + 1, r[2])
(* scale against which a probe value is judged: dl times the sum of |E||H| *)
ProbeScale(tr, q, F) ==
  LET P == Norm2(Arr(tr, F[Comp[q.pol][3]]))
      A == Norm2(Arr(tr, F[Comp[q.pol][1]]))
      B == Norm2(Arr(tr, F[Comp[q.pol][2]]))
  IN CMul(q.dl, CMul(P, CAdd(A, B)))
ProbeClauses(tr, ob, e) ==
  LET F == IF e.nl THEN ob.obs.nl ELSE ob.obs.lin IN
  IF e.dir \notin {"x", "y"} THEN V(e.exc # "", "C04:invalid direction accepted")
  ELSE IF \E k \in 1..3 : F[Comp[ob.q.pol][k]] = 0 THEN V(e.exc # "", "C04:probe without fields returned a value")
  ELSE IF e.exc # "" THEN <<"C04:probe raised">>
  ELSE V(RClose(e.ret, ProbeValue(tr, ob.q, e, F), CN("1e-9"), CMul(CN("1e-12"), ProbeScale(tr, ob.q, F))),
         "C04:probed power is not the Poynting sum of the stored fields")

(* Energy balance over the block i1..i2 x j1..j2 of unstretched cells, with the  *)
(* four probed powers: the flux out equals what the source gives minus what the  *)
(* medium takes.                                                                 *)
PlainAxis(n, np, dl, om, L0) == TLCEval([i \in 1..n |->
  /\ CEq(Stretch(i, n, np, TRUE, dl, om, L0), 1) /\ CEq(Stretch(i, n, np, FALSE, dl, om, L0), 1)
  /\ CEq(Stretch(Wrap(i + 1, n), n, np, FALSE, dl, om, L0), 1)])
PlainX(q, p) == PlainAxis(q.Nx, q.np[1], q.dl, p.omOp, q.L0)
PlainY(q, p) == PlainAxis(q.Ny, q.np[2], q.dl, p.omOp, q.L0)
Plain(q, p, i1, i2, j1, j2) ==
  LET X == PlainX(q, p)  Y == PlainY(q, p)
  IN (\A i \in i1..i2 : X[i]) /\ (\A j \in j1..j2 : Y[j])
BoxClauses(tr, ob, e) ==
  LET q == ob.q  p == ob.s.lin
      F == ob.obs.lin
      eps == Arr(tr, p.eps)  J == Arr(tr, p.src)  P == Arr(tr, F[q.pol])
      cells == [n \in 1..((e.i2 - e.i1 + 1) * (e.j2 - e.j1 + 1)) |->
                  <<e.i1 + ((n - 1) \div (e.j2 - e.j1 + 1)), e.j1 + ((n - 1) % (e.j2 - e.j1 + 1))>>]
      real == \A i \in e.i1 - 1..e.i2 + 1 : \A j \in e.j1 - 1..e.j2 + 1 :
                 CEq(CIm(eps[Wrap(i, q.Nx)][Wrap(j, q.Ny)]), 0)
      half == CDiv(CMul(q.dl, q.dl), 2)
      given == CNeg(CMul(half, CSum([n \in 1..Len(cells) |-> LET i == cells[n][1] j == cells[n][2] IN CRe(CMul(CConj(P[i][j]), J[i][j]))])))
      taken == CMul(CMul(half, CMul(p.om, CMul(EPS0, q.L0))),
                 CSum([n \in 1..Len(cells) |-> LET i == cells[n][1] j == cells[n][2] IN CMul(CIm(eps[i][j]), CAbs2(P[i][j]))]))
      out == CAdd(CSub(e.px[2], e.px[1]), CSub(e.py[2], e.py[1]))
      want == IF real THEN given ELSE CAdd(given, taken)
      tol == CMul(CN("1e-9"), CAdd(ProbeScale(tr, q, F), CMul(half, CMul(Norm2(P), Norm2(J)))))
  IN IF ~(Plain(q, p, e.i1, e.i2, e.j1, e.j2) /\ (real \/ q.pol = "Ez")) THEN <<>>
     ELSE V(RClose(out, want, CN("1e-6"), tol), "C04,C03:energy balance of a closed rectangle")

(***************************************************************************)
(* Design initialisation                                                   *)
(***************************************************************************)
InitClauses(tr, ob, e) ==
  LET q == ob.q
      old == Arr(tr, ob.s.eps)  new == Arr(tr, e.obs.eps)  mask == Arr(tr, e.mask)
      in(i, j) == CEq(mask[i][j], 1)
      design == {<<i, j>> \in (1..q.Nx) \X (1..q.Ny) : in(i, j)}
      is(v) == \A c \in design : RClose(new[c[1]][c[2]], v, CN("1e-12"), 0)
      mirror(c) == <<c[1], q.Ny + 1 - c[2]>>
  IN IF e.exc # "" THEN <<"C19:initialisation raised">>
     ELSE IF ~Good(tr, e.obs.eps, q) \/ ~Good(tr, e.obs.rho, q) THEN <<"C19:permittivity or density misshapen">>
     ELSE Cat(<<
       V(\A i \in 1..q.Nx : \A j \in 1..q.Ny : ~in(i, j) => CEq(new[i][j], old[i][j]), "C19:cell outside the mask changed"),
       CASE e.style = "full" -> V(is(e.epsm), "C19:design cells not full")
         [] e.style = "halfway" -> V(is(CDiv(CAdd(e.epsm, 1), 2)), "C19:design cells not half")
         [] e.style = "empty" -> V(is(1), "C19:design cells not empty")
         [] e.style \in {"random", "random_sym"} ->
              Cat(<< V(\A c \in design : RLe(1, new[c[1]][c[2]]) /\ RLe(new[c[1]][c[2]], e.epsm)
                                          /\ CEq(CIm(new[c[1]][c[2]]), 0), "C19:random permittivity out of range"),
                     IF e.style = "random"
                     THEN V(\A c, d \in design : c # d => ~CEq(new[c[1]][c[2]], new[d[1]][d[2]]), "C19:random cells not independent")
                     ELSE V(\A c \in design : mirror(c) \in design =>
                              RClose(new[c[1]][c[2]], new[mirror(c)[1]][mirror(c)[2]], CN("1e-12"), 0), "C19:not symmetric"),
                     V(\A c \in design : ~CEq(new[c[1]][c[2]], old[c[1]][c[2]]), "C19:random cells not drawn anew"),
                     V(\A c, d \in design : (c # d /\ (e.style = "random_sym" => d # mirror(c)))
                              => ~CEq(new[c[1]][c[2]], new[d[1]][d[2]]), "C19:random cells not independent") >>)
         [] OTHER -> V(e.obs.eps = ob.s.eps, "C19:no style, but the permittivity changed"),
       V(GClose(Arr(tr, e.obs.rho), Map1(new, LAMBDA z : CDiv(CSub(z, 1), CSub(e.epsm, 1))), CN("1e-9"), CN("1e-12")),
         "C19:density is not that of the permittivity"),
       V(e.style \in InitStyles => AllAbsent(e.obs.lin) /\ AllAbsent(e.obs.nl), "C19:fields kept after replacing the permittivity") >>)

(***************************************************************************)
(* All clauses of an event on a simulation                                 *)
(***************************************************************************)
ReadOnly == {"probe", "plot", "read", "box"}
FrameOwner == [solve |-> "C01,C02", solve_nl |-> "C05,C02", probe |-> "C04,C02", box |-> "C04", plot |-> "C20,C02",
               init_design |-> "C19,C02", setup_modes |-> "C14,C02", add_mode |-> "C14,C02",
               compute_nl |-> "C06,C02", index_shift |-> "C06,C02", add_nl |-> "C06,C02", clear_nl |-> "C06,C02",
               set_eps |-> "C02", set_src |-> "C02", set_om |-> "C02", read |-> "C02,C23", plot0 |-> "C20"]
SimClauses(tr, st, e) ==
  LET ob == Obj(st, e.o)
      t == Apply(ob, e)
      own == FrameOwner[e.ev]
  IN Cat(<<
       CASE e.ev = "solve" -> SolveClauses(tr, ob, t, e)
         [] e.ev = "solve_nl" -> SolveNlClauses(tr, ob, t, e)
         [] e.ev = "compute_nl" -> ComputeNlClauses(tr, ob, e)
         [] e.ev = "index_shift" -> ShiftClauses(tr, ob, t, e)
         [] e.ev = "add_nl" -> AddNlClauses(e)
         [] e.ev = "probe" -> ProbeClauses(tr, ob, e)
         [] e.ev = "box" -> BoxClauses(tr, ob, e)
         [] e.ev = "init_design" -> InitClauses(tr, ob, e)
         [] e.ev \in {"set_eps", "set_src", "set_om", "clear_nl", "add_mode"} -> V(e.exc = "", own \o ":" \o e.ev \o " raised")
         [] OTHER -> <<>>,
       ObsClauses(tr, ob, t, e, own),
       V(e.ev \in ReadOnly => e.obs = ob.obs, own \o ":read-only operation changed the state")
     >>)
SimAfter(st, e) == LET ob == Obj(st, e.o)  p == [ob EXCEPT !.s = Apply(ob, e), !.obs = e.obs]
  IN PutObj(st, e.o, IF e.ev = "index_shift" /\ e.exc = "" THEN [shift |-> e.ret] @@ p ELSE p)

SimEvs == {"set_eps", "set_src", "set_om", "add_nl", "clear_nl", "solve", "solve_nl", "compute_nl",
           "index_shift", "probe", "box", "plot", "init_design", "read"}
NewAfter(tr, st, e) ==
  IF e.exc # "" THEN st
  ELSE PutObj(st, e.o, [q |-> QOf(e), s |-> NewSim(e.args.eps, e.args.om, e.obs.src), obs |-> e.obs])
CopyAfter(st, e) == IF e.exc # "" THEN st ELSE PutObj(st, e.o2, Obj(st, e.o))
CopyClauses(st, e) == Cat(<< V(e.exc = "", "C23,C02,C01:copy raised"),
                             V(e.obs = Obj(st, e.o).obs, "C23,C02:copying changed the original"),
                             V(e.exc = "" => e.obs2 = Obj(st, e.o).obs, "C23,C02,C01:copy differs from the original") >>)
=============================================================================
