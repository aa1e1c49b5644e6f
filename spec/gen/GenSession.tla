----------------------------- MODULE GenSession ------------------------------
(* Random behaviours of Session: which public operation comes next, on which    *)
(* object, with which token.  The state is the one of Session, so preconditions *)
(* (e.g. a frequency is followed by a permittivity) are expressed on it.        *)
EXTENDS GenLib, Session, IOUtils
VARIABLES objs, h, kd
MaxObj == IF "MAXOBJ" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXOBJ) ELSE 2
Len0 == IF "OPS" \in DOMAIN IOEnv THEN atoi(IOEnv.OPS) ELSE 14

Dims == <<"pol", "Nx", "Ny", "npx", "npy", "wl", "res", "L0", "epsk", "srck", "chi", "pickle">>
Choice(n) ==
  CASE n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 4..9
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx = 1 THEN 6..9 ELSE {1} \cup 4..9
    [] n = "epsk" -> {"lossy", "real", "steps", "int", "complex"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "real", "line"}
    [] n = "chi" -> {"0.003", "0.03"}          \* size of the nonlinear permittivity
    [] n = "pickle" -> {FALSE}
    [] OTHER -> SetupChoice(n)

Op(i, op, a) == h' = Append(h, [o |-> i, op |-> op] @@ a)
Upd(i, s) == objs' = [objs EXCEPT ![i] = s]
Tok == 1..3
Ez == c.pol = "Ez"

(* the kind of the next operation is chosen first, so that kinds with many       *)
(* instances do not crowd out the others                                         *)
Kinds == {"set_eps", "set_src", "poke_src", "set_om_eps", "om_same", "poke_eps", "add_nl", "clear_nl",
          "solve", "solve2", "solve_nl", "solve_nl2", "index_shift", "probe", "plot", "compute_nl", "init_design", "copy", "new"}
Can(m) == CASE m \in {"add_nl"} -> Ez /\ \E i \in 1..Len(objs) : Len(objs[i].nls) < 3
            [] m = "clear_nl" -> \E i \in 1..Len(objs) : objs[i].nls # <<>>
            [] m \in {"index_shift", "compute_nl"} -> Ez
            [] m \in {"copy", "new"} -> Len(objs) < MaxObj
            [] OTHER -> TRUE
Next1 == \E i \in 1..Len(objs) : LET s == objs[i] IN
  CASE kd = "set_eps" -> \E t \in Tok : Upd(i, SetEps(s, t)) /\ Op(i, kd, [t |-> t])
    [] kd = "set_src" -> \E t \in Tok : Upd(i, SetSrc(s, t)) /\ Op(i, kd, [t |-> t])
    [] kd = "poke_src" -> \E t \in Tok : Upd(i, SetSrc(s, 10 + t)) /\ Op(i, kd, [t |-> t])
    [] kd = "set_om_eps" -> \E t \in Tok, w \in 1..2 : Upd(i, SetEps(SetOm(s, w), t)) /\ Op(i, kd, [t |-> t, w |-> w])
    \* a new frequency, then the permittivity in force once more (the same array or a copy)
    [] kd = "om_same" -> \E w \in 1..3, b \in BOOLEAN : Upd(i, SetEps(SetOm(s, w), s.eps)) /\ Op(i, kd, [w |-> w, copy |-> b])
    \* the array in force is changed in place and assigned again
    [] kd = "poke_eps" -> \E t \in Tok : Upd(i, SetEps(s, 30 + t)) /\ Op(i, kd, [t |-> t])
    [] kd = "add_nl" -> \E t \in Tok : Len(s.nls) < 3 /\ Upd(i, AddNl(s, t)) /\ Op(i, kd, [t |-> t])
    [] kd = "clear_nl" -> s.nls # <<>> /\ Upd(i, ClearNl(s)) /\ Op(i, kd, [t |-> 0])
    [] kd \in {"solve", "solve2"} -> \E b \in BOOLEAN : Upd(i, SolveLin(s)) /\ Op(i, "solve", [avg |-> b])
    [] kd \in {"solve_nl", "solve_nl2"} -> \E g \in BOOLEAN, v \in {"born", "newton", "hybrid"} :
         (Ez \/ v = "born") /\ Upd(i, SolveNl(s, g)) /\ Op(i, "solve_nl", [solver |-> v, given |-> g])
    [] kd = "index_shift" -> Upd(i, IndexShift(s)) /\ Op(i, kd, [t |-> 0])
    [] kd = "probe" -> \E g \in BOOLEAN : Upd(i, s) /\ Op(i, kd, [nl |-> g, dir |-> IF g THEN "x" ELSE "y"])
    [] kd = "plot" -> \E g \in {"abs", "re", "eps", "diff", "abs_nl"} : Upd(i, s) /\ Op(i, kd, [what |-> g])
    [] kd = "compute_nl" -> Upd(i, s) /\ Op(i, kd, [t |-> 1])
    [] kd = "init_design" -> \E y \in {"full", "halfway", "empty", "random", "random_sym", ""}, t \in Tok :
         Upd(i, SetRho(IF y = "" THEN s ELSE SetEps(s, 20 + t), 1)) /\ Op(i, kd, [style |-> y, t |-> t])
    [] kd = "copy" -> objs' = Append(objs, s) /\ Op(i, kd, [t |-> 0])
    [] kd = "new" -> \E t \in Tok : objs' = Append(objs, NewSim(t, 1, 0)) /\ Op(i, kd, [t |-> t])

Init == c = <<>> /\ k = 1 /\ objs = <<>> /\ h = <<>> /\ kd = ""
Pick == /\ k <= Len(Dims)
        /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1 /\ UNCHANGED <<h, kd>>
        /\ objs' = IF k = Len(Dims) THEN <<NewSim(1, 1, 0)>> ELSE objs
(* one in a while takes up what is rare: several nonlinearities, then fields of them,   *)
(* then another permittivity                                                       *)
Rare(i) == LET s == objs[i] IN
  IF Ez /\ Len(s.nls) \in 1..2 /\ s.nl = NoField THEN {"add_nl", "solve_nl"}
  ELSE IF s.nl # NoField THEN {"set_eps", "init_design", "set_om_eps", "om_same"} ELSE Kinds
Kind == /\ k > Len(Dims) /\ Len(h) < Len0 /\ kd = ""
        /\ kd' \in (IF RandomElement(1..3) = 1 THEN {m \in Rare(1) : Can(m)} ELSE {m \in Kinds : Can(m)}) /\ UNCHANGED <<c, k, objs, h>>
Act == /\ k > Len(Dims) /\ Len(h) < Len0 /\ kd # "" /\ Next1 /\ kd' = "" /\ UNCHANGED <<c, k>>
Emit == /\ k = Len(Dims) + 1 /\ Len(h) = Len0
        /\ PrintT("SCN " \o ToJson([ops |-> h] @@ c)) /\ k' = k + 1 /\ UNCHANGED <<c, objs, h, kd>>
Next == Pick \/ Kind \/ Act \/ Emit
Spec == Init /\ [][Next]_<<c, k, objs, h, kd>>
=============================================================================
