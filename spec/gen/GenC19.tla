------------------------------- MODULE GenC19 --------------------------------
(* Successive design initialisations of one object, with solves in between.     *)
EXTENDS GenLib
Dims == SetupDims \o <<"oneD", "y1", "y2", "y3", "m1", "m2", "m3", "d1", "d2", "d3", "e1", "e2", "e3", "b1", "b2">>
Choice(n) ==
  CASE n = "npx" -> IF BIG THEN BigL(c.Nx) ELSE {0, 1}
    [] n = "npy" -> IF BIG THEN BigL(c.Ny) ELSE {0, 1}
    [] n = "epsk" -> {"ones", "real", "lossy", "int", "complex", "steps"}
    [] n = "srck" -> {"point", "random", "faint", "tiny", "strong"}
    [] n = "oneD" -> IF c.Ny = 1 THEN {TRUE, FALSE} ELSE {FALSE}
    [] n \in {"y1", "y2", "y3"} -> {"full", "halfway", "empty", "random", "random_sym", "", "none"}
    [] n \in {"m1", "m2", "m3"} -> {"random", "all", "block", "single", "sym", "nothing"}
    [] n \in {"d1", "d2", "d3"} -> {"int", "float", "bool"}
    [] n \in {"e1", "e2", "e3"} -> {"12.25", "2", "5", "6.5", "1.5"}
    [] n \in {"b1", "b2"} -> {"nothing", "solve", "solve_nl", "copy", "eps"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
