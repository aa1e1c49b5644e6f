------------------------------- MODULE GenC13 --------------------------------
(* Frequency scans, power scans and derivative checks.                          *)
EXTENDS GenLib
Dims == <<"prog">> \o SetupDims \o <<"nargs", "a1", "a2", "n1", "n2", "nterms", "k1", "k2", "mask", "R", "eta", "beta", "epsm",
   "rhok", "nnl", "chi", "scale1", "scale2", "reg", "pre", "again",
   "nf", "df", "npts", "drho",
   "dira", "wa", "ca", "mida", "ordera", "neffa", "scalea", "two", "ns", "smin", "smax", "solver", "probes">>
Power == c.prog \in {"power", "slow"}         \* slow: a power scan whose first stage does not converge in time
Across(d) == IF d = "x" THEN c.Ny ELSE c.Nx
Along(d) == IF d = "x" THEN c.Nx ELSE c.Ny
Layer1(n) == IF BIG /\ ~Power THEN BigL(n) ELSE IF c.prog = "slow" THEN {2, 3} ELSE IF Power THEN {0, 2, 3} ELSE IF n < 5 THEN {0} ELSE {0, 1, 2}
Choice(n) ==
  CASE n = "prog" -> {"power", "slow", "freq", "deriv"}
    [] n = "pol" -> IF c.prog = "slow" THEN {"Ez"} ELSE IF c.prog = "power" /\ RandomElement(1..5) > 1 THEN {"Ez"} ELSE {"Ez", "Hz"}
    [] n = "Nx" -> IF BIG /\ ~Power THEN BigN(n) ELSE IF Power THEN 8..11 ELSE {1} \cup 4..7
    [] n = "Ny" -> IF BIG /\ ~Power THEN BigN(n) ELSE IF Power THEN 8..11 ELSE IF c.Nx < 3 THEN 5..8 ELSE {3} \cup 4..7
    [] n = "npx" -> Layer1(c.Nx)
    [] n = "npy" -> Layer1(c.Ny)
    [] n = "epsk" -> IF Power THEN {"guide", "cross", "steps", "real"} ELSE {"real", "lossy", "steps"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "real"}
    [] n = "nargs" -> 1..2
    [] n \in {"a1", "a2"} -> IF c.pol = "Ez" THEN {"Ez", "Hx", "Hy"} ELSE {"Hz", "Ex", "Ey"}
    [] n \in {"n1", "n2"} -> IF c.pol = "Ez" THEN BOOLEAN ELSE {FALSE}
    [] n = "nterms" -> 1..2
    [] n \in {"k1", "k2"} -> {"abs2", "lin", "cross", "abs2*abs2", "abs2*lin"}
    [] n = "mask" -> {"few", "few", "single"}
    [] n = "R" -> {0, 0, 1, 2}
    [] n = "eta" -> {"0.5", "0.3"}
    [] n = "beta" -> {"1e-9", "0.5", "5"}
    [] n = "epsm" -> {"12.25", "4", "2"}
    [] n = "rhok" -> {"random", "binary", "half", "gray"}
    [] n = "nnl" -> IF c.prog = "slow" \/ RandomElement(1..2) = 1 THEN {1, 2} ELSE {0, 1, 2}
    [] n = "chi" -> {"0.001", "0.01", "0.05"}
    [] n \in {"scale1", "scale2"} -> BOOLEAN
    [] n = "reg" -> {"all", "part", "design"}
    [] n = "pre" -> {"none", "J", "solve", "dJ"}
    [] n = "again" -> BOOLEAN
    [] n = "nf" -> 2..6
    [] n = "df" -> {"0.05", "0.3", "0.001"}
    [] n = "npts" -> 1..4
    [] n = "drho" -> {"0.001", "0.01", "-0.01", "0.0001"}
    [] n = "dira" -> {"x", "y"}
    [] n = "wa" -> IF Power THEN 5..Across(c.dira) ELSE {5}
    [] n = "ca" -> IF Power THEN 1..(Along(c.dira) - 1) ELSE {1}
    [] n = "mida" -> IF ~Power THEN {1} ELSE {x \in 1..Across(c.dira) : 2 * x >= c.wa /\ 2 * x + c.wa <= 2 * Across(c.dira) + 1}
    [] n = "ordera" -> {1, 1, 1, 2}
    [] n = "neffa" -> {"1.07", "1.93", "2.61", "3.23", "3.47"}
    [] n = "scalea" -> {"1", "0.01", "30"}
    [] n = "two" -> BOOLEAN
    [] n = "ns" -> 1..4
    [] n = "smin" -> {"0.01", "0.5"}
    [] n = "smax" -> {"1", "7.5", "100"}
    [] n = "solver" -> IF c.prog = "slow" THEN {"hybrid"} ELSE IF RandomElement(1..3) = 1 THEN {"born"} ELSE {"newton", "born", "hybrid", "default"}
    [] n = "probes" -> IF c.prog = "slow" THEN 1..2 ELSE 0..3
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
