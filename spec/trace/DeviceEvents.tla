---------------------------- MODULE DeviceEvents -----------------------------
(* Device snapshots.  e.o names the snapshot's own simulation.                   *)
EXTENDS PlotEvents

(* the snapshot starts as a copy of its original with all fields solved          *)
DevStart(st, e) == LET ob == Obj(st, e.orig) IN [ob EXCEPT !.s = SolveNl(SolveLin(ob.s), FALSE)]
DevNew(tr, st, e) ==
  LET ob == DevStart(st, e) IN
  IF e.exc # "" THEN <<"C22:building the snapshot raised">>
  ELSE IF ~(Good(tr, e.obs.lin["Ez"], ob.q) /\ Good(tr, e.obs.nl["Ez"], ob.q)) THEN <<"C22:fields of the snapshot are missing">>
  ELSE Cat(<< LinClauses(tr, ob.q, ob.s, Stored(ob.q, e.obs.lin), FALSE, "C22"),
              IF e.sure THEN NlClauses(tr, ob.q, ob.s, Stored(ob.q, e.obs.nl), RT, "C22") ELSE <<>>,
              V(e.Ez = e.obs.lin["Ez"] /\ e.Eznl = e.obs.nl["Ez"], "C22:reported fields"),
              V(CEq(e.L0, ob.q.L0), "C22:reported length unit"),
              V(e.flags = <<FALSE, FALSE, FALSE>>, "C22:a new snapshot claims to be complete"),
              V(e.opt[1] = e.opt[2], "C22:building the snapshot changed the optimization"),
              V(e.obs.eps = ob.s.eps /\ e.obs.src = ob.s.src /\ e.obs.rho = ob.s.rho /\ CEq(e.obs.om, ob.s.om), "C22:the snapshot is not of the simulation") >>)

Light == CN("3e8")
DevParams(tr, st, e) ==
  LET ob == Obj(st, e.o)  q == ob.q
      axis(n, s) == Len(s) = n /\ \A k \in 1..n : RClose(s[k], Coord(n, e.p.dl, k), CN("1e-9"), CMul(CN("1e-9"), e.p.dl)) IN
  IF e.exc # "" THEN <<"C22:setting the parameters raised">>
  ELSE Cat(<<
    V(\A n \in DOMAIN e.p : CEq(e.d[n], e.p[n]), "C22:stored parameters"),
    V(e.npgot = e.np, "C22:stored layers"),
    V(RClose(e.omega, CDiv(CMul(2, CMul(RPi, Light)), e.p.lambda0), CN("1e-9"), 0), "C22:stored frequency"),
    V(RClose(e.gpl, CDiv(e.p.lambda0, CMul(e.p.dl, q.L0)), CN("1e-9"), 0), "C22:cells per wavelength"),
    V(e.N = <<q.Nx, q.Ny, q.Nx \div 2, q.Ny \div 2>>, "C22:stored size"),
    V(axis(q.Nx, e.xr) /\ axis(q.Ny, e.yr), "C22:stored ranges"),
    V(e.flags[1] = TRUE, "C22:parameters not marked as set") >>)
DevGeom(e) ==
  IF e.kind \notin {"two_port", "three_port", "ortho_port"} THEN V(e.exc # "" /\ e.flags[2] = e.was, "C22:unsupported structure accepted")
  ELSE IF e.exc # "" THEN <<"C22:setting the geometry raised">>
  ELSE Cat(<< V(\A n \in DOMAIN e.p : CEq(e.d[n], e.p[n]), "C22:stored geometry"),
              V(e.type = e.kind /\ e.flags[2] = TRUE /\ e.npgot = e.np, "C22:geometry not marked as set") >>)

(* documented ports: direction, centre and width                                 *)
Ports(q, g, np) ==
  LET nx == q.Nx \div 2  ny == q.Ny \div 2  dl == g.dl
      out(k) == -np[k] - Cells1(Half(g.l), dl)
      off == IF "d" \in DOMAIN g THEN Cells1(Half(g.d), dl) ELSE 0
      h == Cells1(Half(g.H), dl)
      P(d, c, w) == [dir |-> d, c |-> c, w |-> w]
  IN [two_port |-> [out |-> P("x", <<out(1), ny>>, q.Ny \div 2), in |-> P("x", <<np[1] + Cells1(CDiv(CMul(2, g.l), 3), dl), ny>>, q.Ny \div 2)],
      three_port |-> [top |-> P("x", <<out(1), ny + off>>, h), bot |-> P("x", <<out(1), ny - off>>, h)],
      ortho_port |-> [right |-> P("x", <<out(1), ny>>, h), top |-> P("y", <<nx, out(2)>>, h)]]
Scanned == [two_port |-> <<"out">>, three_port |-> <<"top", "bot">>, ortho_port |-> <<"right", "top">>]

(* (eigenmodes start from random vectors, so only rounding is shared)            *)
SameS(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : RClose(s[k], t[k], CN("1e-6"), CMul(CN("1e-9"), RMaxAbs(t)))

DevData(tr, st, e) ==
  LET ob == Obj(st, e.o)  q == ob.q IN
  IF e.exc # "" THEN <<"C22:generating data raised">>
  ELSE LET
      ports == Ports(q, e.g, e.np)[e.kind]
      W == ob.obs.win
      lin == e.obs.lin  nl == e.obs.nl
      F(v) == IF v = 1 THEN lin ELSE nl
      val(n, v) == ProbeValue(tr, q, ports[n], F(v))
      pt(v) == CMul(CN("1e-9"), ProbeScale(tr, q, F(v)))
      w(n, v) == RClose(e.W[n][v], val(n, v), CN("1e-9"), pt(v))
      rat(z, n, v) == RClose(CMul(z, W), val(n, v), CN("1e-9"), pt(v))
      ref == tr.ev[e.fref]  pow == tr.ev[e.pref]
  IN Cat(<<
    V(CEq(e.Win, W), "C22:input power"),
    V(e.shift = Obj(st, e.shiftof).shift, "C22:index shift"),
    LinClauses(tr, q, ob.s, Stored(q, lin), FALSE, "C22"),
    IF e.sure THEN NlClauses(tr, q, ob.s, Stored(q, nl), RT, "C22") ELSE <<>>,
    V(DOMAIN e.W = DOMAIN ports /\ \A n \in DOMAIN ports : \A v \in 1..2 : w(n, v), "C22:transmitted power"),
    CASE e.kind = "two_port" -> V(rat(e.T[1], "out", 1) /\ rat(e.T[2], "out", 2), "C22:transmission")
      [] e.kind = "three_port" -> V(\A v \in 1..2 : rat(e.S[1][v], "top", v) /\ rat(e.S[2][v], "bot", v), "C22:power matrix")
      [] e.kind = "ortho_port" -> V(\A v \in 1..2 : rat(e.S[v][1], "top", v) /\ rat(e.S[v][2], "right", v), "C22:power matrix"),
    (* scans: what the stored optimization gives                                  *)
    V(SameS(e.freqs, ref.freqs) /\ SameS(e.objs, ref.vals) /\ RClose(e.width, ref.width, CN("1e-9"), 0), "C22:frequency scan"),
    IF ref.nf # e.Nf \/ ~RClose(ref.df, CDiv(1, 400), CN("1e-12"), 0) THEN <<"MACHINE:reference of the frequency scan">> ELSE <<>>,
    V(CEq(e.width, 0) \/ RClose(CMul(e.Q, CMul(CMul(2, RPi), e.width)), e.omega, CN("1e-9"), 0), "C22:quality factor"),
    IF ~(pow.ns = e.Np /\ CEq(pow.smin, e.smin) /\ CEq(pow.smax, e.smax)
         /\ pow.probes = [k \in 1..Len(Scanned[e.kind]) |-> [nl |-> TRUE] @@ ports[Scanned[e.kind][k]]])
    THEN <<"MACHINE:reference of the power scan">> ELSE <<>>,
    V(SameS(e.powers, pow.powers) /\ Len(e.trans) = Len(pow.trans) /\ \A k \in 1..Len(e.trans) : SameS(e.trans[k], pow.trans[k]), "C22:power scan"),
    V(e.flags = <<TRUE, TRUE, TRUE>>, "C22:data not marked as generated"),
    V(e.opt[1] = e.opt[2], "C22:generating data changed the optimization") >>)

DevSave(e) == Cat(<< V(e.exc = "", "C22:saving raised"),
  V(e.exc = "" => e.file, "C22:nothing was saved under the given name"),
  V(e.exc = "" => Len(e.warned) = Len(SelectSeq(e.flags, LAMBDA b : ~b)), "C22:warnings about missing parts"),
  V(e.before = e.after, "C22:saving changed the snapshot") >>)
(* e.was, e.got: digests of every attribute                                      *)
DevLoad(e) == IF e.exc # "" THEN <<"C22:loading raised">>
  ELSE V(DOMAIN e.got = DOMAIN e.was /\ \A n \in DOMAIN e.was : e.got[n] = e.was[n], "C22:loaded data differ from the saved")

DeviceEvs == {"dev_new", "dev_params", "dev_geom", "dev_data", "dev_save", "dev_load"}
DeviceClauses(tr, st, e) ==
  CASE e.ev = "dev_new" -> DevNew(tr, st, e)
    [] e.ev = "dev_params" -> DevParams(tr, st, e)
    [] e.ev = "dev_geom" -> DevGeom(e)
    [] e.ev = "dev_data" -> DevData(tr, st, e)
    [] e.ev = "dev_save" -> DevSave(e)
    [] e.ev = "dev_load" -> DevLoad(e)
DeviceAfter(st, e) ==
  CASE e.ev = "dev_new" -> IF e.exc # "" THEN st ELSE PutObj(st, e.o, [DevStart(st, e) EXCEPT !.obs = e.obs])
    [] e.ev = "dev_data" -> PutObj(st, e.o, [Obj(st, e.o) EXCEPT !.obs = e.obs])
    [] OTHER -> st
=============================================================================
