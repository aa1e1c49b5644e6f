------------------------------ MODULE OptEvents ------------------------------
(* Objectives and their gradients on a simulation.                              *)
(*   e.args[n] = [c |-> component, nl |-> BOOLEAN], e.terms (weights are array  *)
(*   indices in e.w), e.des (design), e.dirs[n] = [d, lin, nl]: a direction in  *)
(*   the space of densities with tangents of the linear and nonlinear primary   *)
(*   field as witnesses (0: not needed)                                         *)
EXTENDS BoundaryEvents, Design, Objective

LinearObj(e) == \A n \in 1..Len(e.args) : ~e.args[n].nl
ComputeJ(s, e) == Evaluate(s, LinearObj(e))
HasComp(q, e) == \A n \in 1..Len(e.args) : e.args[n].c \in {Comp[q.pol][k] : k \in 1..3}

ArgIx(o, a) == IF a.nl THEN o.nl[a.c] ELSE o.lin[a.c]
ArgFields(tr, o, e) == TLCEval([n \in 1..Len(e.args) |-> Arr(tr, ArgIx(o, e.args[n]))])
Weights(tr, e) == TLCEval([n \in 1..Len(e.w) |-> Arr(tr, e.w[n])])
DesOf(tr, q, x) == [mask |-> Arr(tr, x.mask), np |-> q.np, R |-> x.R, eta |-> x.eta, beta |-> x.beta, epsm |-> x.epsm]

(* scale for comparing values of J: the sum of the moduli of its terms          *)
JScale(terms, F, W) == RMaxAbs([t \in 1..Len(terms) |->
  CMul(terms[t].c, Prod([n \in 1..Len(terms[t].f) |->
    LET f == terms[t].f[n]
        G == IF f.k = "cross" THEN Norm2(F[f.b]) ELSE IF f.k = "abs2" THEN Norm2(F[f.a]) ELSE CN(1)
    IN CMul(RMaxAbs(Flat(W[f.w])), CMul(Norm2(F[f.a]), G))]))])

(* the fields are those of the present state *)
StateClauses(tr, ob, t, e, own) ==
  Cat(<< LinClauses(tr, ob.q, t, Stored(ob.q, e.obs.lin), FALSE, own),
         IF LinearObj(e) THEN <<>> ELSE NlClauses(tr, ob.q, t, Stored(ob.q, e.obs.nl), RT, own) >>)

JClauses(tr, ob, t, e, own) ==
  IF ~HasComp(ob.q, e) THEN V(e.exc # "", "C16:component of the other polarization accepted")
  ELSE IF e.exc # "" THEN <<own \o ",C16:objective raised">>
  ELSE IF \E n \in 1..Len(e.args) : ~Good(tr, ArgIx(e.obs, e.args[n]), ob.q)
       THEN <<own \o ",C16:a field of the objective is missing">>
  ELSE LET F == ArgFields(tr, e.obs, e)  W == Weights(tr, e)
           b == StateClauses(tr, ob, t, e, own)
       IN Cat(<< b, IF b # <<>> THEN <<>> ELSE
            V(RClose(e.ret, JOf(e.terms, F, W), CN("1e-9"), CMul(CN("1e-9"), JScale(e.terms, F, W))),
              own \o ",C16:objective is not its function of the declared fields") >>)

DirClauses(tr, ob, t, e, n, own) ==
  LET q == ob.q  x == e.dirs[n]
      lp == LinProv(t)
      np == NlProv(t)
      eps == Arr(tr, t.eps)
      g == DiscrOf(q, lp)  m == MediumOf(q, lp)
      des == DesOf(tr, q, e.des)
      rho == Arr(tr, e.obs.rho)
      d == Arr(tr, x.d)
      deps == DImage(des, rho, d)
      ns == Nls(tr, t.nls)
      zero == Map1(d, LAMBDA z : CN(0))
      okL == x.lin = 0 \/ Balanced(TangentTerms(g, m, q.pol, <<>>, q.L0, eps, Arr(tr, e.obs.lin[q.pol]), deps, Arr(tr, x.lin)), zero, CN("1e-6"), AT)
      okN == x.nl = 0 \/ Balanced(TangentTerms(g, m, q.pol, ns, q.L0, eps, Arr(tr, e.obs.nl[q.pol]), deps, Arr(tr, x.nl)), zero, CN("1e-6"), AT)
      F == ArgFields(tr, e.obs, e)
      dF == TLCEval([k \in 1..Len(e.args) |->
              DComp(g, m, q.pol, e.args[k].c, eps, deps, Arr(tr, IF e.args[k].nl THEN x.nl ELSE x.lin), F[k])])
      want == DJOf(e.terms, F, dF, Weights(tr, e))
      G == Arr(tr, e.ret)
      parts == Map2(G, d, LAMBDA a, b : CMul(a, b))
      got == CSum(Flat(parts))
      sc == RMax(<<RAbs(want), CSum(Flat(Map1(parts, LAMBDA z : RAbs(z))))>>)
      (* what rounding errors of the fields amount to *)
      floor == CMul(CN("1e-6"), CMul(RMaxAbs(Flat(deps)), JScale(e.terms, F, Weights(tr, e))))
  IN IF ~(okL /\ okN) THEN <<"MACHINE:tangent witness is not a tangent">>
     ELSE V(RClose(got, want, 0, CAdd(CMul(x.tol, sc), CAdd(floor, CN("1e-300")))),
        own \o ",C16:gradient is not the derivative of the objective")

DJClauses(tr, ob, t, e, own) ==
  IF e.exc # "" THEN <<own \o ",C16:gradient raised">>
  ELSE IF \E n \in 1..Len(e.args) : ~Good(tr, ArgIx(e.obs, e.args[n]), ob.q)
       THEN <<own \o ":a field of the objective is missing">>
  ELSE IF ~Good(tr, e.ret, ob.q) THEN <<own \o ":gradient misshapen">>
  ELSE LET b == StateClauses(tr, ob, t, e, own)
           dcl == FlattenSeq([n \in 1..Len(e.dirs) |-> DirClauses(tr, ob, t, e, n, own)])
       IN Cat(<< b,
            V(GFinite(Arr(tr, e.ret)), own \o ":gradient is not finite"),
            V(\A i \in 1..ob.q.Nx : \A j \in 1..ob.q.Ny : CEq(CIm(Arr(tr, e.ret)[i][j]), 0), own \o ":gradient is not real"),
            IF b # <<>> THEN <<>> ELSE dcl >>)

OwnJ(e) == "C10," \o (IF LinearObj(e) THEN "C07" ELSE "C08")
SetRhoEv(ob, e) == SetRho(ob.s, e.rho)
OptEvs == {"compute_J", "compute_dJ", "set_rho", "new_obj", "is_linear"}
OptState(ob, e) ==
  CASE e.ev \in {"compute_J", "compute_dJ"} -> IF e.exc = "" THEN ComputeJ(ob.s, e) ELSE ob.s
    [] e.ev = "set_rho" -> SetRhoEv(ob, e)
    [] OTHER -> ob.s
OptClauses(tr, st, e) ==
  IF e.ev = "new_obj" THEN V((e.exc = "") = (e.nargs = e.nparams /\ e.good), "C16:objective wrongly accepted or rejected")
  ELSE IF e.ev = "is_linear" THEN V(e.exc = "" /\ e.ret = LinearObj(e), "C16:linearity of the objective")
  ELSE LET ob == Obj(st, e.o)  t == OptState(ob, e)  own == OwnJ(e) IN
  Cat(<< CASE e.ev = "compute_J" -> JClauses(tr, ob, t, e, own)
           [] e.ev = "compute_dJ" -> DJClauses(tr, ob, t, e, own)
           [] OTHER -> <<>>,
         IF e.exc # "" THEN <<>> ELSE
         ObsClauses(tr, ob, t, e, IF e.ev = "set_rho" THEN "C10" ELSE own \o ",C16") >>)
(* objective, its scale and gradient are remembered for relations between objects *)
OptAfter(tr, st, e) == IF e.ev \in {"new_obj", "is_linear"} THEN st
  ELSE LET ob == Obj(st, e.o)
           p == [ob EXCEPT !.s = OptState(ob, e), !.obs = e.obs]
       IN PutObj(st, e.o,
            IF e.ev = "compute_J" /\ e.exc = ""
            THEN [J |-> e.ret, Jsc |-> JScale(e.terms, ArgFields(tr, e.obs, e), Weights(tr, e))] @@ p
            ELSE IF e.ev = "compute_dJ" /\ e.exc = "" THEN [dJ |-> e.ret] @@ p
            ELSE p)
=============================================================================
