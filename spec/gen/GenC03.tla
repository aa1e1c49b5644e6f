------------------------------- MODULE GenC03 --------------------------------
EXTENDS GenLib
Dims == <<"kind", "sq", "pol", "axis", "span", "np", "dnp", "oth", "wl", "res", "L0", "bg", "extra", "more", "epsk", "srck", "Nx", "Ny", "npx", "npy">>
Choice(n) ==
  CASE n = "kind" -> {"shift", "layers"}
    [] n = "axis" -> {"x", "y", "xy"}               \* axes with layers
    [] n = "span" -> {1, 5}                         \* width across, where there is no layer
    [] n = "sq" -> {FALSE, FALSE, TRUE}
    [] n = "dnp" -> {0, 3}                          \* further layers along y
    [] n = "oth" -> {10, 13}                        \* cells along y
    [] n = "np" -> {8, 10, 15}
    [] n = "res" -> {10, 15, 20, 30}
    [] n = "bg" -> {"1", "2.25"}
    [] n = "extra" -> {0, 7}
    [] n = "more" -> {0, 8}
    [] n = "epsk" -> {"real", "lossy", "complex", "steps", "int", "ones"}
    [] n = "srck" -> {"point", "line", "random", "faint", "tiny", "strong"}
    [] n = "Nx" -> IF c.sq /\ c.kind = "shift" THEN 6..11 ELSE IF BIG THEN BigN(n) ELSE {1, 2} \cup 3..11
    [] n = "Ny" -> IF c.sq /\ c.kind = "shift" THEN {c.Nx} ELSE IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 3..11 ELSE {1, 2} \cup 3..11
    [] n = "npx" -> IF BIG THEN BigL(c.Nx) ELSE IF c.Nx < 6 THEN {0} ELSE {0, 1, 2}
    [] n = "npy" -> IF c.npx > 0 \/ c.Ny < 6 THEN {0} ELSE IF BIG THEN BigL(c.Ny) ELSE {0, 2}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v) 
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
