------------------------------- MODULE GenC04 --------------------------------
EXTENDS GenLib
Dims == SetupDims \o <<"avg", "nl">>
Choice(n) ==
  CASE n = "avg" -> IF c.pol = "Hz" THEN {TRUE, FALSE} ELSE {FALSE}
    [] n = "nl" -> {TRUE, FALSE}
    [] n \in {"npx", "npy"} -> IF BIG THEN BigL(IF n = "npx" THEN c.Nx ELSE c.Ny) ELSE {0, 1, 2}
    [] n = "epsk" -> {"real", "ones", "steps", "lossy", "complex", "int"}
    [] n = "srck" -> {"point", "line", "random", "faint", "tiny", "strong", "real"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 5..13
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx = 1 THEN 5..13 ELSE {1} \cup 5..13
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v) 
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
