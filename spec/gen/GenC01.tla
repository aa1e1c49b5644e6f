------------------------------- MODULE GenC01 --------------------------------
EXTENDS GenLib
Dims == SetupDims \o <<"oneD", "avg", "again", "prog">>
Choice(n) ==
  CASE n = "oneD" -> IF c.Ny = 1 THEN {TRUE, FALSE} ELSE {FALSE}
    [] n = "avg" -> {TRUE, FALSE}
    [] n = "again" -> {"same", "src", "eps", "om", "scaled"}   \* what is changed before the second solve
    [] n = "prog" -> {"plain", "copy"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v) 
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
