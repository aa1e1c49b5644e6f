------------------------------- MODULE GenC22 --------------------------------
(* Device snapshots.                                                            *)
EXTENDS GenLib
Dims == <<"kind", "npx", "npy", "wl", "res", "L0", "L", "L2", "H", "H2", "w", "d", "l", "spc", "frac", "epsm", "neff", "nnl", "chi", "scale1", "scale2", "reg",
   "n1", "nargs", "a1", "k1", "nterms", "R", "eta", "beta", "mask", "prog", "first", "nf", "np", "smin", "smax", "limit", "bad", "pre", "scl">>
Choice(n) ==
  CASE n = "kind" -> {"two_port", "three_port", "ortho_port"}
    [] n \in {"npx", "npy"} -> {0, 1, 2}
    [] n = "wl" -> {"2.0", "1.55"}
    [] n = "res" -> {8, 12, 20}
    [] n = "L0" -> {"1e-6", "1e-9"}
    [] n \in {"L", "L2"} -> 2..5
    [] n \in {"H", "H2"} -> 5..7
    [] n = "w" -> 2..3
    [] n = "d" -> 2..4
    [] n = "l" -> 2..4
    [] n = "spc" -> 0..2
    [] n = "frac" -> {"0.3", "0.5", "0.7"}
    [] n = "epsm" -> {"4", "6", "12.25"}
    [] n = "neff" -> {"1.5", "2", "3"}
    [] n = "nnl" -> {0, 1, 1, 1, 2}
    [] n = "chi" -> {"0.001", "0.01"}
    [] n \in {"scale1", "scale2", "n1"} -> BOOLEAN
    [] n = "reg" -> {"all", "part", "design"}
    [] n = "nargs" -> {1}
    [] n = "a1" -> {"Ez", "Hx", "Hy"}
    [] n = "k1" -> {"abs2"}
    [] n = "nterms" -> {1}
    [] n = "R" -> {0, 0, 2}
    [] n = "eta" -> {"0.5"}
    [] n = "beta" -> {"1e-9", "5"}
    [] n = "mask" -> {"design"}
    [] n = "prog" -> {"data", "data", "data", "data,save,load", "save,load", "save", "data,data", "geom,data", "load"}
    [] n = "first" -> {"params", "geom"}
    [] n = "nf" -> {2, 3, 4}
    [] n = "np" -> {1, 2}
    [] n = "smin" -> {"0.5"}
    [] n = "smax" -> {"0.7", "1", "2"}
    [] n = "limit" -> {"none"}
    [] n = "bad" -> {"none", "none", "none", "N_port", "", "TWO_PORT"}
    [] n = "pre" -> {"none", "solve", "solve_nl", "run", "solve,src", "solve_nl,src"}
    [] n = "scl" -> {"1", "10"}
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
