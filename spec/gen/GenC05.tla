------------------------------- MODULE GenC05 --------------------------------
(* A sequence of nonlinear solves on one object with different starts, solvers  *)
(* and limits.                                                                  *)
EXTENDS GenLib
Dims == SetupDims \o <<"nnl", "chi", "scale1", "scale2", "reg", "s1", "s2", "s3", "t1", "t2", "t3", "i1", "i2", "i3", "st1", "st2", "st3", "between">>
Solvers == {"born", "newton", "hybrid", "default"}
Choice(n) ==
  CASE n = "pol" -> {"Ez"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1, 3} \cup 4..9
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..9 ELSE {1, 3} \cup 4..9
    [] n = "npx" -> IF BIG THEN BigL(c.Nx) ELSE {0, 1, 2}
    [] n = "npy" -> IF BIG THEN BigL(c.Ny) ELSE {0, 1, 2}
    [] n = "epsk" -> {"real", "lossy", "steps", "complex", "int"}
    [] n = "srck" -> {"point", "line", "random", "faint", "strong", "real"}
    [] n = "nnl" -> {0, 1, 1, 2, 3, 4}
    [] n = "chi" -> {"0", "1e-5", "1e-3", "0.01", "0.05", "-0.01", "0.1", "0.15", "0.2", "0.3", "10"}
    [] n \in {"scale1", "scale2"} -> BOOLEAN
    [] n = "reg" -> {"all", "part", "frac"}
    [] n \in {"s1", "s2", "s3"} -> Solvers
    [] n \in {"t1", "t2", "t3"} -> {"default", "1e-6", "1e-4", "1e-5", "1e-12"}
    [] n \in {"i1", "i2", "i3"} -> {0, 1, 2, 4, 30}            \* 0: not given
    [] n \in {"st1", "st2", "st3"} -> {"none", "linear", "random", "near", "zero"}
    [] n = "between" -> {"none", "src", "eps", "solve", "add", "clear", "compute_nl"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
