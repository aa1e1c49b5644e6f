------------------------------- MODULE GenC17 --------------------------------
(* Calls of the linear-algebra and grid helpers.                                *)
EXTENDS GenLib
Dims == <<"op", "n", "fill", "mat", "mat2", "rhs", "shape", "fmt", "solver", "timing", "neigs", "guess", "axis", "oneD", "same",
          "pol", "Nx", "Ny", "npx", "npy", "wl", "res", "L0", "epsk", "avg">>
Choice(n) ==
  CASE n = "op" -> {"direct", "c2r", "eigs", "average", "spacing", "equal", "operator"}
    [] n = "n" -> IF c.op = "eigs" THEN 4..12 ELSE {1, 2} \cup 3..14 \cup {29, 47}
    [] n = "fill" -> {"full", "sparse", "tridiag", "diag"}
    [] n = "mat" -> {"complex", "real", "hermitian", "symmetric", "scaled", "int", "imag"}
    [] n = "mat2" -> {"complex", "real", "imag", "zero", "large"}
    [] n = "rhs" -> {"complex", "real", "int", "unit", "imag", "zero", "tiny"}
    [] n = "shape" -> {"vector", "column", "grid"}
    [] n = "fmt" -> {"csr", "csc"}
    [] n = "solver" -> {"default", "default", "pardiso", "scipy", "PARDISO", "SciPy", "Pardiso", "mumps", "", "lu"}
    [] n = "timing" -> BOOLEAN
    [] n = "neigs" -> 1..(IF c.op = "eigs" THEN (IF c.n > 6 THEN 4 ELSE c.n - 2) ELSE 1)
    [] n = "guess" -> {"zero", "inside", "outside", "complex"}
    [] n = "axis" -> {"x", "y", "x", "y", "z"}
    [] n = "oneD" -> BOOLEAN
    [] n = "same" -> {"same", "copy", "entry", "tiny", "pattern", "other"}
    [] n = "pol" -> {"Ez", "Hz", "Hz", "Ex"}
    [] n = "npx" -> Layer(c.Nx)
    [] n = "npy" -> Layer(c.Ny)
    [] n = "epsk" -> {"ones", "real", "lossy", "complex", "metal", "steps"}
    [] n = "avg" -> {"default", "yes", "no"}
    [] OTHER -> SetupChoice(n)
Init == c = <<>> /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
