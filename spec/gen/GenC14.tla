------------------------------- MODULE GenC14 --------------------------------
(* One or two mode definitions on guides and arbitrary media, set up once or    *)
(* twice, with and without other sources.                                       *)
EXTENDS GenLib
Dims == <<"pol", "Nx", "Ny", "npx", "npy", "wl", "res", "L0", "epsk", "srck", "srct",
          "dira", "wa", "ca", "mida", "ordera", "neffa", "scalea", "two",
          "dirb", "wb", "cb", "midb", "orderb", "neffb", "scaleb", "prog">>
Across(d) == IF d = "x" THEN c.Ny ELSE c.Nx
Along(d) == IF d = "x" THEN c.Nx ELSE c.Ny
Choice(n) ==
  CASE n \in {"Nx", "Ny"} -> 8..14 \cup {19, 26}
    [] n \in {"npx", "npy"} -> {0, 2, 3}
    [] n = "epsk" -> {"guide", "guide", "cross", "steps", "real", "lossy", "ones", "int", "metal", "thin", "thin"}
    [] n = "srck" -> {"zero", "random", "faint", "strong", "real"}
    [] n = "srct" -> {"default", "complex", "float", "int"}
    [] n \in {"dira", "dirb"} -> {"x", "y"}
    [] n = "wa" -> 5..Across(c.dira)
    [] n = "wb" -> 5..Across(c.dirb)
    [] n = "ca" -> 1..(Along(c.dira) - 1)
    [] n = "cb" -> 1..(Along(c.dirb) - 1)
    [] n = "mida" -> {x \in 1..Across(c.dira) : 2 * x >= c.wa /\ 2 * x + c.wa <= 2 * Across(c.dira) + 1}
    [] n = "midb" -> {x \in 1..Across(c.dirb) : 2 * x >= c.wb /\ 2 * x + c.wb <= 2 * Across(c.dirb) + 1}
    [] n \in {"ordera", "orderb"} -> IF (IF n = "ordera" THEN c.wa ELSE c.wb) < 6 THEN {1, 1, 2, 3} ELSE {1, 1, 2, 3, 4}
    [] n \in {"neffa", "neffb"} -> {"1.07", "1.93", "2.61", "3.23", "3.47"}
    [] n \in {"scalea", "scaleb"} -> {"1", "0.01", "30", "-2"}
    [] n = "two" -> BOOLEAN
    [] n = "prog" -> {"setup", "setup,setup", "solve,setup,solve", "setup,scale,setup", "setup,eps,setup", "copy,setup", "om,setup"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
