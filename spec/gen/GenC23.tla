------------------------------- MODULE GenC23 --------------------------------
(* Simulations of different setups, optimizations, modes and copies side by     *)
(* side; which one acts next is free.  A variant of a simulation says how its    *)
(* setup differs from the first one.                                             *)
EXTENDS GenLib, Session
VARIABLES objs, opts, h, kd
MaxObj == 3
MaxOpt == 3
Len0 == IF "OPS" \in DOMAIN IOEnv THEN atoi(IOEnv.OPS) ELSE 16

Dims == <<"pol", "Nx", "Ny", "npx", "npy", "wl", "res", "L0", "epsk", "srck", "chi", "R", "eta", "beta", "epsm", "k1", "k2">>
Choice(n) ==
  CASE n = "Nx" -> 4..7
    [] n = "Ny" -> 4..7
    [] n = "npx" -> {0, 0, 1, 2}
    [] n = "npy" -> {0, 0, 1, 2}
    [] n = "epsk" -> {"lossy", "real", "steps", "guide"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "line"}
    [] n = "chi" -> {"0.003", "0.01"}
    [] n = "R" -> {1, 2}
    [] n = "eta" -> {"0.5", "0.3"}
    [] n = "beta" -> {"1e-9", "5"}
    [] n = "epsm" -> {"12.25", "4"}
    [] n = "k1" -> {"abs2", "lin", "abs2*lin"}
    [] n = "k2" -> {"cross", "abs2*abs2", "lin"}
    [] OTHER -> SetupChoice(n)
Variants == {"same", "om", "np", "pol", "flip", "dl", "L0"}
Pol(v) == IF v = "pol" THEN (IF c.pol = "Ez" THEN "Hz" ELSE "Ez") ELSE c.pol
Op(op, a) == h' = Append(h, [op |-> op] @@ a)
N == Len(objs)
On(i, op, a) == Op(op, [o |-> i] @@ a) /\ UNCHANGED <<objs, opts>>
Kinds == {"new", "copy", "new_opt", "set_eps", "set_src", "set_om_eps", "solve", "solve_nl", "add_nl", "clear_nl", "init_design", "index_shift", "probe", "plot",
          "add_mode", "J", "dJ", "dJ2", "J2", "run", "run2", "check_deriv", "scan_frequency", "function", "snap"}
Can(m) == CASE m \in {"new", "copy"} -> N < MaxObj
            [] m = "new_opt" -> Len(opts) < MaxOpt
            [] m \in {"J", "dJ", "dJ2", "J2", "run", "run2", "check_deriv", "scan_frequency", "function", "snap"} -> opts # <<>>
            [] m \in {"add_nl", "solve_nl", "index_shift", "clear_nl"} -> \E i \in 1..N : Pol(objs[i]) = "Ez"
            [] OTHER -> TRUE
Next1 ==
  CASE kd = "new" -> \E v \in Variants : objs' = Append(objs, v) /\ UNCHANGED opts /\ Op(kd, [o |-> N + 1, v |-> v])
    [] kd = "copy" -> \E i \in 1..N : objs' = Append(objs, objs[i]) /\ UNCHANGED opts /\ Op(kd, [o |-> i])
    [] kd = "new_opt" -> \E i \in 1..N : \E g \in 1..3, b \in BOOLEAN : opts' = Append(opts, i) /\ UNCHANGED objs
                            /\ Op(kd, [o |-> i, obj |-> g, nl |-> (b /\ Pol(objs[i]) = "Ez"), share |-> RandomElement(BOOLEAN), m |-> LET x == RandomElement(1..5) IN IF x > 3 THEN x - 2 ELSE x, f |-> IF RandomElement(1..4) = 1 THEN 0 ELSE 1])
    [] kd = "function" -> \E j \in 1..Len(opts) : On(opts[j], kd, [j |-> j])
    [] kd = "J" -> \E j \in 1..Len(opts) : On(opts[j], kd, [j |-> j])
    [] kd \in {"dJ", "dJ2"} -> \E j \in 1..Len(opts) : On(opts[j], "dJ", [j |-> j])
    [] kd = "J2" -> \E j \in 1..Len(opts) : \E i \in 1..N : Pol(objs[i]) = Pol(objs[opts[j]]) /\ On(i, "J", [j |-> j])
    [] kd \in {"run", "run2"} -> \E j \in 1..Len(opts), m \in {"gd", "adam", "lbfgs"}, n \in 1..3 : On(opts[j], "run", [j |-> j, m |-> m, n |-> n])
    [] kd \in {"check_deriv", "scan_frequency", "snap"} -> \E j \in 1..Len(opts) : On(opts[j], kd, [j |-> j])
    [] kd \in {"add_nl", "solve_nl", "index_shift", "clear_nl"} -> \E i \in 1..N : Pol(objs[i]) = "Ez" /\ \E t \in 1..3 : On(i, kd, [t |-> t])
    [] OTHER -> \E i \in 1..N : \E t \in 1..3 : On(i, kd, [t |-> t])
Init == c = <<>> /\ k = 1 /\ objs = <<>> /\ opts = <<>> /\ h = <<>> /\ kd = ""
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1 /\ UNCHANGED <<h, kd, opts>>
        /\ objs' = IF k = Len(Dims) THEN <<"same">> ELSE objs
(* two simulations and two optimizations come first                              *)
Early == IF Len(h) = 0 THEN {"new"} ELSE IF Len(h) \in {1, 2} THEN {"new_opt"} ELSE Kinds
Kind == /\ k > Len(Dims) /\ Len(h) < Len0 /\ kd = ""
        /\ kd' \in {m \in Early : Can(m)} /\ UNCHANGED <<c, k, objs, opts, h>>
Act == k > Len(Dims) /\ kd # "" /\ Next1 /\ kd' = "" /\ UNCHANGED <<c, k>>
Emit == /\ k = Len(Dims) + 1 /\ Len(h) = Len0 /\ kd = ""
        /\ PrintT("SCN " \o ToJson([ops |-> h] @@ c)) /\ k' = k + 1 /\ UNCHANGED <<c, objs, opts, h, kd>>
Next == Pick \/ Kind \/ Act \/ Emit
Spec == Init /\ [][Next]_<<c, k, objs, opts, h, kd>>
=============================================================================
