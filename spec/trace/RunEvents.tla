------------------------------ MODULE RunEvents ------------------------------
(* Optimization runs, scans and derivative checks.                              *)
(*                                                                              *)
(* The iterations of a run are observed by runs of 0, 1, 2, ... iterations from *)
(* copies of the same start: copy number k shows the state after k iterations.  *)
(* On these copies the objective (compute_J), the index shift and the gradient  *)
(* (compute_dJ) are evaluated afresh and validated by the clauses of those      *)
(* events; a "trajectory" event then relates consecutive copies.                *)
EXTENDS FilterEvents, Loop

SetF(s, q, o, nl) ==    \* fields found after a run are those of the state then
  [s EXCEPT !.lin = IF o.lin[q.pol] = 0 THEN NoField ELSE LinProv(s),
            !.nl = IF o.nl[q.pol] = 0 THEN NoField ELSE NlProv(s)]
RunState(ob, e) ==
  IF e.exc # "" THEN ob.s
  ELSE SetF(SetSrc(SetRho(SetEps(ob.s, e.obs.eps), e.obs.rho), e.obs.src), ob.q, e.obs, TRUE)

(* (a start outside of [0,1] is brought back by the first iteration)              *)
Near01(z) == RLe(CN("-1e-9"), z) /\ RLe(CRe(z), CN("1.000000001")) /\ CEq(CIm(z), 0)
In01(z) == RLe(0, z) /\ RLe(z, 1) /\ CEq(CIm(z), 0)
RunClauses(tr, ob, e) ==
  LET q == ob.q
      eps0 == Arr(tr, ob.s.eps)
      rho0 == IF ob.s.rho = 0 THEN Map1(eps0, LAMBDA z : Density(e.des.epsm, z)) ELSE Arr(tr, ob.s.rho)
      d == DesOf(tr, q, e.des)
      added == Len(e.recs) - Len(e.recs0)
      cells == (1..q.Nx) \X (1..q.Ny)
      inD(c) == In(d, c[1], c[2])
      t == RunState(ob, e)
  IN IF e.lower \notin Methods THEN V(e.exc # "", "C11:unknown method accepted")
     ELSE IF e.exc # "" THEN <<"C11:run raised">>
     ELSE IF ~Good(tr, e.obs.eps, q) \/ ~Good(tr, e.obs.rho, q) \/ ~Good(tr, e.obs.src, q) THEN <<"C11:permittivity, density or source misshapen">>
     ELSE LET eps == Arr(tr, e.obs.eps)  rho == Arr(tr, e.obs.rho)
              want == Image(d, rho, eps0)
              start01 == \A c \in cells : inD(c) => In01(At(rho0, c))
     IN Cat(<<
       V(start01 => \A c \in cells : inD(c) => In01(At(rho, c)), "C11:density leaves [0,1]"),
       V(e.lower = "lbfgs" \/ added > 0 => \A c \in cells : inD(c) => Near01(At(rho, c)), "C11:density left outside of [0,1]"),
       V(\A c \in cells : ~inD(c) => RClose(At(rho, c), At(rho0, c), CN("1e-12"), CN("1e-14")), "C11:density outside of the design changed"),
       V(\A c \in cells : ~inD(c) => CEq(At(eps, c), At(eps0, c)), "C11:permittivity outside of the design changed"),
       V(\A c \in cells : inD(c) => RClose(At(eps, c), At(want, c), CN("1e-9"), 0), "C11:permittivity is not the image of the density"),
       V(e.limit = "" => e.obs.src = ob.s.src, "C11:source touched without a limit"),
       V(added >= 0 /\ SubSeq(e.recs, 1, Len(e.recs0)) = e.recs0, "C11:earlier records changed"),
       V(CountOK(e.lower, e.n, added), "C11:number of objective records"),
       V(Len(e.amps) - Len(e.amps0) = added /\ SubSeq(e.amps, 1, Len(e.amps0)) = e.amps0, "C12:number of source amplitudes recorded"),
       V(e.limit = "" => \A k \in (Len(e.amps0) + 1)..Len(e.amps) : RClose(e.amps[k], RMaxAbs(Flat(Arr(tr, ob.s.src))), CN("1e-12"), 0),
         "C12:source amplitude recorded"),
       V(\A k \in 1..Len(e.recs) : RFinite(e.recs[k]), "C11:objective record is not finite"),
       IF t.lin # NoField /\ FieldsCurrent(e.lower, e.limit # "") THEN LinClauses(tr, q, t, Stored(q, e.obs.lin), FALSE, "C11,C10,C02") ELSE <<>>,
       IF t.nl # NoField /\ e.sure /\ FieldsCurrent(e.lower, e.limit # "") THEN NlClauses(tr, q, t, Stored(q, e.obs.nl), RT, "C11,C10,C02") ELSE <<>> >>)

(* tolerance of comparisons between separate evaluations of the same thing      *)
ET == CN("1e-5")
ScanT == CN("1e-7")
MaxG(G) == RMaxAbs(Flat(G))
Clip(z) == IF RLt(z, 0) THEN CN(0) ELSE IF RLt(1, z) THEN CN(1) ELSE CRe(z)
(* moments of Adam over the gradients Gs *)
RECURSIVE Moments(_, _, _)
Moments(Gs, b1, b2) ==
  IF Len(Gs) = 0 THEN [m |-> CN(0), v |-> CN(0)]
  ELSE LET p == Moments(SubSeq(Gs, 1, Len(Gs) - 1), b1, b2)  G == Gs[Len(Gs)]
       IN [m |-> CAdd(CMul(b1, p.m), CMul(CSub(1, b1), G)), v |-> CAdd(CMul(b2, p.v), CMul(CSub(1, b2), CMul(G, G)))]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN CN(1) ELSE CMul(b, Pow(b, n - 1))

Direction(e, Gs, c) ==      \* <<direction, tolerance>> of iteration Len(Gs) in cell c
  LET n == Len(Gs)  g == [k \in 1..n |-> At(Gs[k], c)]  big == RMax([k \in 1..n |-> MaxG(Gs[k])]) IN
  IF e.lower = "gd" THEN <<g[n], CMul(ET, big)>>
  ELSE LET mv == Moments(g, e.b1, e.b2)
           m == CDiv(mv.m, CSub(1, Pow(e.b1, n)))  v == CDiv(mv.v, CSub(1, Pow(e.b2, n)))
           den == CAdd(RSqrt(v), CN("1e-8"))
       IN <<CDiv(m, den), CAdd(CN("1e-9"), CDiv(CMul(CMul(2, ET), big), den))>>

StepClauses(tr, st, e, k) ==
  LET A == Obj(st, e.objs[k])  B == Obj(st, e.objs[k + 1])
      d == DesOf(tr, A.q, e.des)
      Gs == TLCEval([n \in 1..k |-> Arr(tr, Obj(st, e.objs[n]).dJ)])
      ra == Arr(tr, A.run.rho)  rb == Arr(tr, B.run.rho)
      n0 == Len(A.run.recs)
      expect(c) == LET D == Direction(e, Gs, c) IN
         RClose(At(rb, c), Clip(CAdd(At(ra, c), CMul(e.step, D[1]))), CN("1e-9"), CMul(RAbs(e.step), D[2]))
      amp == RMaxAbs(Flat(Arr(tr, A.run.src)))
  IN Cat(<<
    IF e.lower = "lbfgs" THEN <<>> ELSE
      V(\A c \in (1..A.q.Nx) \X (1..A.q.Ny) : In(d, c[1], c[2]) => expect(c), "C12:density after the iteration is not the exact step"),
    IF Len(B.run.recs) # n0 + 1 \/ Len(B.run.amps) # n0 + 1 THEN <<"C11:number of objective records">> ELSE
    Cat(<< V(SubSeq(B.run.recs, 1, n0) = A.run.recs \/ \A x \in 1..n0 : RClose(B.run.recs[x], A.run.recs[x], ET, CMul(ET, A.Jsc)), "C11:earlier records depend on later iterations"),
           LET J == RecordAt(e.lower, A, B) IN
           V(RClose(B.run.recs[n0 + 1], J.J, 0, CMul(ET, J.Jsc)), "C11:objective record is not that of the design it was taken at"),
           V(RClose(B.run.amps[n0 + 1], amp, CN("1e-9"), 0), "C12:source amplitude recorded") >>),
    IF e.limit = "" THEN <<>> ELSE
      LET C == RecordAt(e.lower, A, B)
          sh == RMaxAbs(Flat(Arr(tr, C.shift)))
          ff == IF CEq(sh, 0) THEN CN(1) ELSE CSub(RSqrt(CDiv(e.limit, sh)), CN("0.01"))
      IN V(GNear(Arr(tr, B.run.src), Map1(Arr(tr, A.run.src), LAMBDA z : CMul(ff, z)), 0, CMul(ET, CMul(RAbs(ff), amp))),
           "C12:source after the iteration is not rescaled to the index-shift limit") >>)
TrajClauses(tr, st, e) ==
  IF \E n \in 1..Len(e.objs) : ~Has(Obj(st, e.objs[n]), "run") THEN <<>>       \* reported there
  ELSE Cat(<< FlattenSeq([k \in 1..(Len(e.objs) - 1) |-> StepClauses(tr, st, e, k)]),
    IF e.lower # "lbfgs" \/ e.limit # "" THEN <<>>
    ELSE LET A == Obj(st, e.objs[1])  d == DesOf(tr, A.q, e.des)  r0 == Arr(tr, A.run.rho) IN
      IF \E c \in (1..A.q.Nx) \X (1..A.q.Ny) : In(d, c[1], c[2]) /\ ~In01(At(r0, c)) THEN <<>> ELSE
      Cat([k \in 1..(Len(e.objs) - 1) |-> LET B == Obj(st, e.objs[k + 1]) IN
        V(RLe(A.J, CAdd(B.J, CMul(CN("1e-6"), RMax(<<A.Jsc, B.Jsc>>)))), "C12:L-BFGS ended below its start")]) >>)

(* curve drawn from the records *)
CurveClauses(e) ==
  IF e.exc # "" THEN <<"C12,C20:drawing the objective raised">>
  ELSE LET y(k) == CASE e.norm = "field" -> CDiv(e.recs[k], e.amps[k])
                     [] e.norm = "power" -> CDiv(e.recs[k], CMul(e.amps[k], e.amps[k]))
                     [] OTHER -> e.recs[k]
  IN V(Len(e.y) = Len(e.recs) /\ Len(e.x) = Len(e.recs)
       /\ \A k \in 1..Len(e.y) : CEq(e.x[k], k) /\ RClose(e.y[k], y(k), CN("1e-12"), 0), "C12,C20:reported objective curve")

(***************************************************************************)
(* Derivative check, scans                                                 *)
(***************************************************************************)
CheckState(ob, e) == IF e.exc # "" THEN ob.s
  ELSE SetF(SetEps(ob.s, e.obs.eps), ob.q, e.obs, TRUE)
(* e.cells[n] = name of the object with the density of design cell n raised     *)
CheckClauses(tr, st, ob, e) ==
  LET t == CheckState(ob, e) IN
  IF e.exc # "" THEN <<"C13:derivative check raised">>
  ELSE IF ~Good(tr, e.obs.eps, ob.q) THEN <<"C13:permittivity misshapen">>
  ELSE LET
       fits(n) == LET B == Obj(st, e.base)  G == Arr(tr, B.dJ) IN
         \E x \in 1..Len(e.cells) : LET D == Obj(st, e.cells[x].o) IN
          /\ RClose(e.avm[n], G[e.cells[x].i][e.cells[x].j], ET, CMul(ET, MaxG(G)))
          /\ RClose(e.num[n], CDiv(CSub(D.J, B.J), e.drho), CN("1e-3"), CMul(CN("1e-8"), CDiv(B.Jsc, RAbs(e.drho))))
  IN Cat(<<
    V(Len(e.avm) = e.npts /\ Len(e.num) = e.npts, "C13:number of points"),
    V(e.base = "" \/ \A n \in 1..Len(e.avm) : n <= Len(e.num) => fits(n), "C13:reported derivatives are not those of a design cell"),
    V(GClose(Arr(tr, e.obs.eps), Arr(tr, ob.s.eps), CN("1e-9"), 0), "C13:derivative check changed the permittivity"),
    V(e.obs.rho = ob.s.rho, "C13:derivative check changed the density"),
    IF t.lin # NoField THEN LinClauses(tr, ob.q, t, Stored(ob.q, e.obs.lin), FALSE, "C13,C10,C02") ELSE <<>>,
    IF t.nl # NoField THEN NlClauses(tr, ob.q, t, Stored(ob.q, e.obs.nl), RT, "C13,C10,C02") ELSE <<>> >>)

(* e.objs[n]: object at the n-th frequency with its objective evaluated          *)
Above(e) == LET h == CDiv(RMax(e.vals), 2) IN [n \in 1..Len(e.vals) |-> RLt(h, e.vals[n])]
RECURSIVE Run(_, _, _)
Run(b, n, s) == IF n < 1 \/ n > Len(b) \/ ~b[n] THEN 0 ELSE 1 + Run(b, n + s, s)
FreqClauses(tr, st, ob, e) ==
  LET n == e.nf
      df == CDiv(CMul(ob.s.om, e.df), CMul(CSub(n, 1), CMul(2, RPi)))
      f0 == CDiv(CMul(ob.s.om, CSub(1, CDiv(e.df, 2))), CMul(2, RPi))
      mid == (n \div 2) + 1
      b == Above(e)
      count == Run(b, mid, 1) + Run(b, mid - 1, -1)
  IN IF e.exc # "" THEN <<"C13:frequency scan raised">>
     ELSE IF Len(e.freqs) # n \/ Len(e.vals) # n THEN <<"C13:number of frequencies">>
     ELSE Cat(<<
       V(\A k \in 1..n : RClose(e.freqs[k], CAdd(f0, CMul(k - 1, df)), CN("1e-9"), 0), "C13:frequencies of the scan"),
       V(e.objs = <<>> \/ \A k \in 1..n : LET C == Obj(st, e.objs[k]) IN RClose(e.vals[k], C.J, ET, CMul(ET, C.Jsc)), "C13:objective at a scanned frequency"),
       V(b[mid] # b[mid - 1] \/ RClose(e.width, CMul(count, df), CN("1e-6"), 0), "C13:width of the peak"),
       V(b[mid] # b[mid - 1] => RClose(e.width, CMul(count, df), CN("1e-6"), 0) \/ RClose(e.width, 0, 0, 0), "C13:width of the peak") >>)

(* e.objs[n]: object with the mode scaled to the n-th amplitude, solved          *)
PowerClauses(tr, st, ob, e) ==
  IF ~e.given THEN V(e.exc # "", "C13:power scan without probes accepted")
  ELSE IF e.exc # "" THEN <<"C13:power scan raised">>
  ELSE IF Len(e.powers) # e.ns \/ Len(e.trans) # Len(e.probes) \/ \E p \in 1..Len(e.trans) : Len(e.trans[p]) # e.ns
       THEN <<"C13:number of powers">>
  ELSE LET ratio(k) == IF e.ns = 1 THEN CN(0) ELSE CDiv(k - 1, e.ns - 1)
           scale(k) == RExp(CAdd(RLog(e.smin), CMul(ratio(k), CSub(RLog(e.smax), RLog(e.smin)))))
  IN Cat([k \in 1..Len(e.objs) |-> LET C == Obj(st, e.objs[k].o) IN
       IF ~RClose(e.objs[k].scale, scale(e.objs[k].k), CN("1e-9"), 0) THEN <<"MACHINE:amplitudes of the power scan">> ELSE
       Cat(<< V(RClose(e.powers[e.objs[k].k], C.obs.win, ScanT, 0), "C13:input power of the scan"),
              V(\A p \in 1..Len(e.trans) : LET P == e.probes[p] IN
                  RClose(CMul(e.trans[p][e.objs[k].k], C.obs.win),
                    IF P.dir = "count" THEN CN(e.objs[k].k) ELSE
                    ProbeValue(tr, C.q, P, IF P.nl THEN C.obs.nl ELSE C.obs.lin), ScanT,
                    CMul(CN("1e-9"), ProbeScale(tr, C.q, IF P.nl THEN C.obs.nl ELSE C.obs.lin))),
                "C13:power ratio of a probe") >>)])

RunEvs == {"run", "check_deriv", "scan_frequency", "scan_power"}
RunAny == RunEvs \cup {"trajectory", "curve"}
RunSt(ob, e) == CASE e.ev = "run" -> RunState(ob, e)
                  [] e.ev = "check_deriv" -> CheckState(ob, e)
                  [] OTHER -> ob.s
RunOwner == [run |-> "C11,C10", check_deriv |-> "C13,C10", scan_frequency |-> "C13,C10", scan_power |-> "C13,C10"]
RunEvClauses(tr, st, e) ==
  CASE e.ev = "trajectory" -> TrajClauses(tr, st, e)
    [] e.ev = "curve" -> CurveClauses(e)
    [] OTHER -> LET ob == Obj(st, e.o)  t == RunSt(ob, e) IN
       Cat(<< CASE e.ev = "run" -> RunClauses(tr, ob, e)
                [] e.ev = "check_deriv" -> CheckClauses(tr, st, ob, e)
                [] e.ev = "scan_frequency" -> FreqClauses(tr, st, ob, e)
                [] e.ev = "scan_power" -> PowerClauses(tr, st, ob, e),
              IF e.exc # "" THEN <<>> ELSE ObsClauses(tr, ob, t, e, RunOwner[e.ev]),
              V(e.ev \in {"scan_frequency", "scan_power"} => e.obs = ob.obs, "C13:scan changed the simulation"),
              IF Has(e, "modes") THEN V(e.modes[1] = e.modes[2], "C13:scan changed a mode") ELSE <<>> >>)
RunAfter(st, e) ==
  IF e.ev \in {"trajectory", "curve"} THEN st
  ELSE LET ob == Obj(st, e.o)  p == [ob EXCEPT !.s = RunSt(ob, e), !.obs = e.obs]
       IN PutObj(st, e.o, IF e.ev = "run" /\ e.exc = ""
            THEN ("run" :> [rho |-> e.obs.rho, eps |-> e.obs.eps, src |-> e.obs.src, recs |-> e.recs, amps |-> e.amps]) @@ p
            ELSE p)
=============================================================================
