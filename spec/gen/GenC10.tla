------------------------------- MODULE GenC10 --------------------------------
(* Behaviours of simulations and an optimization evaluating objectives on them. *)
(* The state is that of Session for every simulation plus which objective and   *)
(* function are in force; a request may follow any change.                      *)
EXTENDS GenLib, Session, IOUtils
VARIABLES objs, h, cur
Len0 == IF "OPS" \in DOMAIN IOEnv THEN atoi(IOEnv.OPS) ELSE 10

Dims == <<"pol", "Nx", "Ny", "npx", "npy", "wl", "res", "L0", "epsk", "srck", "chi", "scale1", "reg",
   "nargs", "a1", "a2", "n1", "n2", "nterms", "k1", "k2", "b1", "m1", "mask", "R", "eta", "beta", "epsm", "rhok", "limit">>
Layer1(n) == IF BIG THEN BigL(n) ELSE IF n < 5 THEN {0} ELSE {0, 1, 2}
Choice(n) ==
  CASE n = "pol" -> {"Ez", "Ez", "Ez", "Hz"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 4..7
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..8 ELSE {3} \cup 4..7
    [] n = "npx" -> Layer1(c.Nx)
    [] n = "npy" -> Layer1(c.Ny)
    [] n = "epsk" -> {"real", "lossy", "int", "steps"}
    [] n = "srck" -> {"point", "random", "faint", "strong"}
    [] n = "chi" -> {"0.001", "0.01"}
    [] n = "scale1" -> BOOLEAN
    [] n = "reg" -> {"all", "part", "design"}
    [] n = "nargs" -> 1..2
    [] n \in {"a1", "a2", "b1"} -> IF c.pol = "Ez" THEN {"Ez", "Hx", "Hy"} ELSE {"Hz", "Ex", "Ey"}
    [] n \in {"n1", "n2", "m1"} -> IF c.pol = "Ez" THEN BOOLEAN ELSE {FALSE}
    [] n = "nterms" -> 1..2
    [] n \in {"k1", "k2"} -> {"abs2", "lin", "cross", "abs2*abs2", "abs2*lin"}
    [] n = "mask" -> {"random", "all", "block", "single"}
    [] n = "R" -> {0, 0, 1, 2, 4}
    [] n = "eta" -> {"0.5", "0.3"}
    [] n = "beta" -> {"1e-9", "0.5", "5"}
    [] n = "epsm" -> {"12.25", "4", "2"}
    [] n = "rhok" -> {"random", "binary", "half", "gray"}
    [] n = "limit" -> {"none", "0.8"}
    [] OTHER -> SetupChoice(n)
Op(i, op, a) == h' = Append(h, [o |-> i, op |-> op] @@ a)
Upd(i, s) == objs' = [objs EXCEPT ![i] = s] /\ UNCHANGED cur
Tok == 1..3
Ez == c.pol = "Ez"
(* a frequency without an assignment of the permittivity: the operator is still   *)
(* that of the earlier one, which only linear fields are specified for            *)
Half(s) == s.om # s.omOp
Linear == ~c.n1 /\ ~c.n2 /\ ~c.m1
Whole(i) == LET s == objs[i] IN
  \/ \E t \in Tok : Upd(i, SetEps(SetRho(s, t), t)) /\ Op(i, "set_design", [t |-> t])
  \/ \E t \in Tok : Upd(i, SetEps(s, 10 + t)) /\ Op(i, "set_eps", [t |-> t])
  \/ \E t \in Tok, w \in 1..2 : Upd(i, SetEps(SetOm(s, w), t)) /\ Op(i, "set_om_eps", [t |-> t, w |-> w])
Change(i) == IF Half(objs[i]) THEN Whole(i) ELSE LET s == objs[i] IN
  \/ Whole(i)
  \/ Linear /\ \E w \in 1..3 : w # s.om /\ Upd(i, SetOm(s, w)) /\ Op(i, "set_om", [w |-> w])
  \/ \E t \in Tok : Upd(i, SetRho(s, 10 + t)) /\ Op(i, "set_rho", [t |-> t])
  \/ \E t \in Tok : Upd(i, SetSrc(s, t)) /\ Op(i, "set_src", [t |-> t])
  \/ \E t \in Tok : Upd(i, SetSrc(s, 10 + t)) /\ Op(i, "poke_src", [t |-> t])
  \/ \E t \in Tok : Upd(i, SetSrc(s, 20 + t)) /\ Op(i, "scale_src", [t |-> t])
  \/ Ez /\ \E t \in Tok : Len(s.nls) < 3 /\ Upd(i, AddNl(s, t)) /\ Op(i, "add_nl", [t |-> t])
  \/ s.nls # <<>> /\ Upd(i, ClearNl(s)) /\ Op(i, "clear_nl", [t |-> 0])
  \/ \E b \in BOOLEAN : Upd(i, SolveLin(s)) /\ Op(i, "solve", [avg |-> b])
  \/ Ez /\ \E g \in BOOLEAN : Upd(i, SolveNl(s, g)) /\ Op(i, "solve_nl", [given |-> g])
  \/ Ez /\ Upd(i, s) /\ Op(i, "compute_nl", [t |-> 1])
  \/ \E y \in {"full", "halfway", "random", ""} : Upd(i, SetRho(IF y = "" THEN s ELSE SetEps(s, 20), 1)) /\ Op(i, "init_design", [style |-> y, t |-> 1])
  \/ Len(objs) < 2 /\ objs' = Append(objs, s) /\ UNCHANGED cur /\ Op(i, "copy", [t |-> 0])
  \/ \E t \in 1..2 : t # cur[1] /\ cur' = <<t, cur[2]>> /\ UNCHANGED objs /\ Op(i, "objective", [t |-> t])
  \/ \E t \in 1..2 : t # cur[2] /\ cur' = <<cur[1], t>> /\ UNCHANGED objs /\ Op(i, "function", [t |-> t])
  \/ i = 1 /\ Upd(i, s) /\ \E t \in 1..3 : Op(i, "check_deriv", [t |-> t])
  \/ i = 1 /\ Upd(i, s) /\ \E t \in 2..4 : Op(i, "scan_frequency", [t |-> t])
  \/ i = 1 /\ Upd(i, s) /\ \E m \in {"gd", "adam", "lbfgs"} : Op(i, "run", [m |-> m, t |-> 1])
  \/ Upd(i, s) /\ Op(i, "other", [t |-> 1])
Request(i) == Upd(i, objs[i]) /\ \E g \in IF Half(objs[i]) THEN {"J"} ELSE {"J", "dJ"} : Op(i, g, [t |-> 0])
Init == c = <<>> /\ k = 1 /\ objs = <<>> /\ h = <<>> /\ cur = <<1, 1>>
Pick == /\ k <= Len(Dims)
        /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1 /\ UNCHANGED <<h, cur>>
        /\ objs' = IF k = Len(Dims) THEN <<NewSim(1, 1, 0)>> ELSE objs
(* requests follow changes *)
Act == /\ k > Len(Dims) /\ Len(h) < Len0 /\ UNCHANGED <<c, k>>
       /\ \E i \in 1..Len(objs) :
            IF h = <<>> \/ h[Len(h)].op \in {"J", "dJ"} THEN Change(i) \/ Request(i) ELSE IF Len(h) % 4 = 3 THEN Change(i) ELSE Request(i)
Emit == /\ k = Len(Dims) + 1 /\ Len(h) = Len0
        /\ PrintT("SCN " \o ToJson([ops |-> h] @@ c)) /\ k' = k + 1 /\ UNCHANGED <<c, objs, h, cur>>
Next == Pick \/ Act \/ Emit
Spec == Init /\ [][Next]_<<c, k, objs, h, cur>>
=============================================================================
