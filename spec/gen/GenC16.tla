------------------------------- MODULE GenC16 --------------------------------
(* Declaring objectives: accepted and rejected declarations, arguments in every *)
(* order and multiplicity, replacing the function.                              *)
EXTENDS GenLib
Dims == <<"op">> \o SetupDims \o <<"nargs", "a1", "a2", "a3", "a4", "n1", "n2", "n3", "n4", "nterms", "k1", "k2", "nparams", "bad", "single", "style",
   "mask", "R", "eta", "beta", "epsm", "rhok", "nnl", "chi", "scale1", "scale2", "reg", "prog", "alien">>
Layer1(n) == IF BIG THEN BigL(n) ELSE IF n < 5 THEN {0} ELSE {0, 1, 2}
All == {"Ez", "Hx", "Hy", "Hz", "Ex", "Ey"}
Own == IF c.pol = "Ez" THEN {"Ez", "Hx", "Hy"} ELSE {"Hz", "Ex", "Ey"}
Choice(n) ==
  CASE n = "op" -> {"eval", "eval", "declare"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1} \cup 4..8
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..8 ELSE {3} \cup 4..8
    [] n = "npx" -> Layer1(c.Nx)
    [] n = "npy" -> Layer1(c.Ny)
    [] n = "epsk" -> {"real", "lossy", "int", "steps"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "line"}
    [] n = "nargs" -> 1..4
    [] n = "alien" -> {0, 0, 0, 0, 1, 2, 3}        \* which argument names a component of the other polarization
    [] n \in {"a1", "a2", "a3", "a4"} -> IF c.op = "declare" THEN All ELSE Own
    [] n \in {"n1", "n2", "n3", "n4"} -> IF c.pol = "Ez" \/ c.op = "declare" THEN BOOLEAN ELSE {FALSE}
    [] n = "nterms" -> 1..2
    [] n \in {"k1", "k2"} -> {"abs2", "lin", "cross", "abs2*abs2", "abs2*lin"}
    [] n = "nparams" -> 0..4
    [] n = "bad" -> {"none", "none", "ez", "E", "", "Hq", "EZ", "H", "Ex,Ey", "x"}
    [] n = "single" -> BOOLEAN
    [] n = "style" -> {"lambda", "def", "default", "named"}
    [] n = "mask" -> {"random", "all", "block", "single"}
    [] n = "R" -> {0, 0, 1, 2}
    [] n = "eta" -> {"0.5", "0.3"}
    [] n = "beta" -> {"1e-9", "0.5", "5"}
    [] n = "epsm" -> {"12.25", "4", "2"}
    [] n = "rhok" -> {"random", "binary", "half", "gray"}
    [] n = "nnl" -> {0, 1, 1, 2}
    [] n = "chi" -> {"0.001", "0.01", "0.05"}
    [] n \in {"scale1", "scale2"} -> BOOLEAN
    [] n = "reg" -> {"all", "part", "design"}
    [] n = "prog" -> {"J", "J,swap,J", "dJ,swap,dJ", "J,swap,dJ,J", "is,J,is", "nl,J", "nl,is,dJ", "swap,dJ", "swap,J,swap,J", "share,J,dJ"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
