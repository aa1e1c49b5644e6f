------------------------------- MODULE GenC20 --------------------------------
(* Drawings, animations and temporary plots.                                    *)
EXTENDS GenLib, FiniteSets
Dims == <<"op">> \o SetupDims \o <<"prog", "nl", "cbar", "outline", "given", "vmin", "vmax", "log", "t", "normalize", "nf",
   "method", "steps", "it", "whats", "slash", "deep", "some", "files", "twice", "rhok", "mask", "R", "eta", "beta", "epsm", "nargs", "a1", "n1", "k1", "norm">>
Layer1(n) == IF BIG THEN BigL(n) ELSE IF n < 5 THEN {0} ELSE {0, 1, 2}
Subs == {"file", "png", "dir", "link", "linkdir", "hidden", "dangling", "it", "many"}
Choice(n) ==
  CASE n = "op" -> {"draw", "draw2", "draw3", "ani", "temp", "temp2", "plot_it"}
    [] n = "pol" -> IF c.op \in {"temp", "temp2", "plot_it"} THEN {"Ez"} ELSE {"Ez", "Hz"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1, 2, 3} \cup 4..8
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..8 ELSE {3} \cup 4..8
    [] n = "npx" -> Layer1(c.Nx)
    [] n = "npy" -> Layer1(c.Ny)
    [] n = "epsk" -> IF c.op \in {"temp", "temp2"} THEN {"real", "steps"} ELSE {"real", "lossy", "steps", "ones", "metal", "int"}
    [] n = "srck" -> {"point", "random", "faint", "strong", "line"}
    [] n = "prog" -> {"none", "solve", "solve_nl", "solve_nl,solve", "solve,solve_nl", "set_eps,solve_nl", "set_src,solve_nl", "solve,set_eps", "solve_nl,set_eps", "solve_nl,set_src"}
    [] n \in {"nl", "cbar", "outline", "given", "log", "normalize", "slash", "deep"} -> BOOLEAN
    [] n \in {"vmin", "vmax"} -> {"none", "none", "some"}
    [] n = "t" -> {1, 1, 2, 3}
    [] n = "nf" -> {2, 3, 5, 8}
    [] n = "method" -> {"gd", "adam", "lbfgs"}
    [] n = "steps" -> 1..5
    [] n = "it" -> 1..3
    [] n = "whats" -> {"default", "eps", "of", "eps,of", "elin", "eps,elin,of", "eps,of,elin,enl", "elin,enl", "enl,of,eps"}
    [] n = "some" -> BOOLEAN
    [] n = "files" -> IF c.some THEN SUBSET Subs ELSE {{}}
    [] n = "twice" -> BOOLEAN
    [] n = "rhok" -> {"random", "half"}
    [] n = "mask" -> {"random", "all", "block"}
    [] n = "R" -> {0, 0, 2}
    [] n = "eta" -> {"0.5"}
    [] n = "beta" -> {"0.5", "5"}
    [] n = "epsm" -> {"4", "12.25"}
    [] n = "nargs" -> {1}
    [] n = "a1" -> {"Ez"}
    [] n = "n1" -> {FALSE}
    [] n = "k1" -> {"abs2"}
    [] n = "norm" -> {"", "field", "power"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
