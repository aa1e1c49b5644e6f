------------------------------- MODULE GenC06 --------------------------------
(* Programs adding, rejecting and evaluating nonlinearities on one object.      *)
EXTENDS GenLib
Dims == SetupDims \o <<"chi", "emax", "regk", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9">>
Choice(n) ==
  CASE n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 4..9
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..9 ELSE {1} \cup 4..9
    [] n = "npx" -> IF BIG THEN BigL(c.Nx) ELSE {0, 1}
    [] n = "npy" -> IF BIG THEN BigL(c.Ny) ELSE {0, 1}
    [] n = "epsk" -> {"ones", "real", "lossy", "int", "complex", "steps"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "real"}
    [] n = "chi" -> {"0.003", "0.02", "-0.01", "0"}
    [] n = "emax" -> {"12.25", "3", "6.5"}
    [] n = "regk" -> {"int", "float", "bool", "frac"}
    [] n \in {"p1", "p2"} -> {"add", "add_scaled"}
    [] n \in {"p3", "p4"} /\ c.p1 = "add" -> {"add", "add_scaled", "add_twin"}
    [] n \in {"p3", "p4", "p5", "p6", "p7", "p8", "p9"} ->
         {"add", "add_scaled", "add_twin", "add_nomax", "add_bad", "compute", "compute2", "compute_real", "compute_zero",
          "set_eps", "set_src", "shift", "shift2", "clear", "copy", "solve", "om"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
