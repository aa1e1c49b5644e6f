------------------------------- MODULE GenC15 --------------------------------
(* Geometries: generator, grid spacing, lengths in cells plus a fraction.       *)
EXTENDS GenLib
Dims == <<"kind", "dl", "npx", "npy", "L", "L2", "H", "H2", "w", "d", "l", "spc", "gap", "wl", "beta", "n", "epsm", "bg", "fL", "fH", "fw", "fd", "nreg", "single", "Nx", "Ny", "ty">>
Choice(x) ==
  CASE x = "kind" -> {"two_port", "three_port", "N_port", "ortho_port", "accelerator", "accelerator_multi", "regions"}
    [] x = "dl" -> {"0.125", "0.25", "1", "0.1", "0.03"}
    [] x \in {"npx", "npy"} -> {0, 1, 2, 3, 5}
    [] x \in {"L", "L2"} -> 2..14
    [] x \in {"H", "H2"} -> 2..14
    [] x = "w" -> 1..5
    [] x = "d" -> 2..9
    [] x = "l" -> 1..5
    [] x = "spc" -> 0..4
    [] x = "gap" -> 1..6
    [] x = "wl" -> 4..12
    [] x = "beta" -> {"0.5", "1", "0.7"}
    [] x = "n" -> 1..9
    [] x = "epsm" -> {"12.25", "2", "4.0", "6"}
    [] x = "bg" -> {"default", "1", "2.25", "3"}
    [] x \in {"fL", "fH", "fw", "fd"} -> {"0", "0.3", "0.5", "0.7"}
    [] x = "nreg" -> 1..3
    [] x = "single" -> BOOLEAN
    [] x \in {"Nx", "Ny"} -> 1..9
    [] x = "ty" -> {"float", "int", "numpy"}
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
