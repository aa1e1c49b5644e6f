------------------------------- MODULE GenC07 --------------------------------
(* Objectives of linear (NL=0) or mixed (NL=1) fields and their gradients.      *)
EXTENDS GenLib, IOUtils
NL == "NL" \in DOMAIN IOEnv /\ IOEnv.NL = "1"
Dims == SetupDims \o <<"nargs", "a1", "a2", "a3", "a4", "n1", "n2", "n3", "n4", "nterms", "k1", "k2", "k3", "mask", "R", "eta", "beta", "epsm", "rhok",
                       "nnl", "chi", "scale1", "scale2", "reg", "prog", "order">>
Layer1(n) == IF BIG THEN BigL(n) ELSE IF n < 5 THEN {0} ELSE {0, 1, 2}
Kinds == {"abs2", "lin", "cross", "abs2*abs2", "abs2*lin", "lin*lin", "cross*abs2"}
Choice(n) ==
  CASE n = "pol" -> IF NL THEN {"Ez"} ELSE {"Ez", "Hz"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 4..8
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..9 ELSE {1, 3} \cup 4..8
    [] n = "npx" -> Layer1(c.Nx)
    [] n = "npy" -> Layer1(c.Ny)
    [] n = "epsk" -> {"real", "lossy", "int", "complex", "steps"}
    [] n = "srck" -> {"point", "line", "random", "faint", "strong", "real"}
    [] n = "nargs" -> 1..4
    [] n \in {"a1", "a2", "a3", "a4"} -> IF c.pol = "Ez" THEN {"Ez", "Hx", "Hy"} ELSE {"Hz", "Ex", "Ey"}
    [] n = "n1" -> {NL}
    [] n \in {"n2", "n3", "n4"} -> IF NL THEN BOOLEAN ELSE {FALSE}
    [] n = "nterms" -> 1..3
    [] n \in {"k1", "k2", "k3"} -> Kinds
    [] n = "mask" -> {"random", "all", "block", "single", "sym"}
    [] n = "R" -> {0, 1, 2, 3, 5}
    [] n = "eta" -> {"0.5", "0.3", "0.65"}
    [] n = "beta" -> {"1e-9", "0.02", "0.5", "5", "12", "60"}
    [] n = "epsm" -> {"12.25", "4", "2"}
    [] n = "rhok" -> {"random", "binary", "half", "gray", "free"}
    [] n = "nnl" -> IF NL THEN {1, 2, 3} ELSE {0}
    [] n = "chi" -> {"0.001", "0.01", "0.03", "-0.01"}
    [] n \in {"scale1", "scale2"} -> BOOLEAN
    [] n = "reg" -> {"all", "part", "frac", "design"}
    [] n = "prog" -> {"dJ", "J,dJ", "dJ,J,dJ", "stale,dJ", "warm,dJ", "J,stale,dJ", "dJ,stale,dJ"}
    [] n = "order" -> {0, 1}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
