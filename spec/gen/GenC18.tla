------------------------------- MODULE GenC18 --------------------------------
(* Binarized objectives.                                                        *)
EXTENDS GenLib
Dims == <<"op", "Nx", "Ny", "kind", "mask", "maskt", "epsm", "cst", "epsk", "eps2", "J", "f", "beta", "eta", "deco">>
Choice(n) ==
  CASE n = "op" -> {"binarize", "binarize", "binarize", "util"}
    [] n \in {"Nx", "Ny"} -> {1, 2, 3, 4, 5, 6, 11}
    [] n = "kind" -> {"density", "density_exp", "smoothness"}
    [] n = "mask" -> {"all", "random", "single", "block", "sym"}
    [] n = "maskt" -> {"int", "float"}
    [] n = "epsm" -> {"12.25", "4", "2", "1.5"}
    [] n = "cst" -> {"default", "0.5", "3", "1", "-0.5"}
    [] n = "epsk" -> {"binary", "gray", "nearly", "empty", "full", "half", "above", "oneoff"}
    [] n = "eps2" -> {"outside", "inside", "none"}
    [] n = "J" -> {"abs2", "mixed", "eps", "const"}
    [] n = "f" -> {"eps2rho_bar", "rho_bar2eps", "deps_drho_bar", "rho_bar", "drho_bar_drho"}
    [] n = "beta" -> {"1e-3", "0.5", "5", "20", "100"}
    [] n = "eta" -> {"0.5", "0.3", "0.48", "0.9", "0", "1"}
    [] n = "deco" -> {"plain", "deco", "shared", "nested", "four"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
