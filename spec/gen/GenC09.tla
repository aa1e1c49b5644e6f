------------------------------- MODULE GenC09 --------------------------------
(* Density maps and the parameters of filter and projection.                    *)
EXTENDS GenLib
Dims == <<"Nx", "Ny", "npx", "npy", "mask", "mdt", "R", "eta", "beta", "epsm", "rhok", "rhok2", "how", "other">>
Ly(n) == IF BIG THEN BigL(n) ELSE IF n < 4 THEN {0, 0, 1} ELSE {0, 0, 0, 1, 2}
Choice(n) ==
  CASE n = "Nx" -> IF BIG THEN BigN(n) ELSE {1, 2, 3} \cup 4..14
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE {1, 2, 3} \cup 4..14
    [] n = "npx" -> Ly(c.Nx)
    [] n = "npy" -> Ly(c.Ny)
    [] n = "mask" -> {"random", "all", "block", "single", "sym", "nothing"}
    [] n = "mdt" -> {"int", "float"}
    [] n = "R" -> IF BIG THEN {1, 2, 5, 9, 13} ELSE 1..6
    [] n = "eta" -> {"0.5", "0.3", "0.65", "0.05", "0", "1", "0.47", "0.51"}
    [] n = "beta" -> {"1e-9", "0.01", "0.5", "5", "12", "100", "2000"}
    [] n = "epsm" -> {"12.25", "4", "2", "1.01"}
    [] n = "rhok" -> {"random", "binary", "half", "gray"}
    [] n = "rhok2" -> {"random", "binary", "half", "impulse"}
    [] n = "other" -> BOOLEAN
    [] n = "how" -> {"get_W", "optimization", "none"}
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
