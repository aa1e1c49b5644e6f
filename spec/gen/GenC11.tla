------------------------------- MODULE GenC11 --------------------------------
(* Optimization runs.  EXACT=1 concentrates on methods with explicit steps and  *)
(* on the index-shift limit.                                                    *)
EXTENDS GenLib, IOUtils
EXACT == "EXACT" \in DOMAIN IOEnv /\ IOEnv.EXACT = "1"
Dims == SetupDims \o <<"nargs", "a1", "a2", "n1", "n2", "nterms", "k1", "k2", "mask", "R", "eta", "beta", "epsm", "rhok",
   "nnl", "chi", "scale1", "scale2", "reg", "start", "style", "method", "method2", "K", "step", "gstep", "betas", "limit", "pre", "post", "norm">>
Layer1(n) == IF BIG THEN BigL(n) ELSE IF n < 5 THEN {0} ELSE {0, 1, 2}
Known == {"LBFGS", "lbfgs", "GD", "gd", "Gd", "ADAM", "adam", "Adam", "lBfGs"}
Choice(n) ==
  CASE n = "pol" -> {"Ez", "Ez", "Hz"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 4..8
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..8 ELSE {3} \cup 4..8
    [] n = "npx" -> Layer1(c.Nx)
    [] n = "npy" -> Layer1(c.Ny)
    [] n = "epsk" -> {"real", "lossy", "int", "steps", "real"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "real"}
    [] n = "nargs" -> 1..2
    [] n \in {"a1", "a2"} -> IF c.pol = "Ez" THEN {"Ez", "Hx", "Hy"} ELSE {"Hz", "Ex", "Ey"}
    [] n \in {"n1", "n2"} -> BOOLEAN
    [] n = "nterms" -> 1..2
    [] n \in {"k1", "k2"} -> {"abs2", "lin", "cross", "abs2*abs2", "abs2*lin"}
    [] n = "mask" -> {"random", "all", "block", "single", "sym"}
    [] n = "R" -> {0, 0, 1, 2, 3}
    [] n = "eta" -> {"0.5", "0.3"}
    [] n = "beta" -> {"5e-7", "0.5", "5", "12"}
    [] n = "epsm" -> {"12.25", "4", "2"}
    [] n = "rhok" -> {"random", "binary", "half", "gray", "free", "beyond"}
    [] n = "nnl" -> IF BIG THEN {0, 1} ELSE {0, 1, 1, 3}
    [] n = "chi" -> {"0.001", "0.01"}
    [] n \in {"scale1", "scale2"} -> BOOLEAN
    [] n = "reg" -> {"all", "part", "design"}
    [] n = "start" -> {"set", "set", "init", "fresh"}
    [] n = "style" -> {"full", "halfway", "empty", "random", "random_sym", ""}
    [] n = "method" -> IF EXACT THEN {"GD", "gd", "ADAM", "adam", "lbfgs", "Adam"} ELSE Known \cup {"sgd", "", "L-BFGS"}
    [] n = "method2" -> {"LBFGS", "gd", "Adam"}
    [] n = "K" -> IF EXACT THEN {1, 2, 3, 7} ELSE IF BIG THEN {1, 2, 3} ELSE {1, 2, 3, 5}
    [] n = "step" -> {"0.02", "0.1", "0.6", "-0.05", "5e-7"}
    [] n = "gstep" -> {"0.05", "0.3", "2", "-0.1", "5e-7"}
    [] n = "betas" -> {"default", "other"}
    [] n = "limit" -> IF EXACT THEN {"none", "0.5", "1.3", "0.9"} ELSE {"none", "none", "0.8"}
    [] n = "pre" -> {"none", "J", "run"}
    [] n = "post" -> {"none", "J", "run"}
    [] n = "norm" -> {"", "field", "power"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
