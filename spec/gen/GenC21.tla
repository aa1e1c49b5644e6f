------------------------------- MODULE GenC21 --------------------------------
(* All combinations of valid and invalid setup arguments (enumerated, not       *)
(* sampled).  The driver tries every polarization argument for each of them.    *)
EXTENDS GenLib
Dims == <<"om", "lu", "np", "ek">>
Choice(n) ==
  CASE n = "om" -> {"good", "zero", "neg", "nan"}
    [] n = "lu" -> {"1e-6", "1", "zero", "neg", "nan"}
    [] n = "np" -> {"00", "03", "30", "24", "frac", "half", "numpy", "big", "neg0", "neg1", "minus", "tuple", "array", "one", "three", "none", "empty", "scalar"}
    [] n = "ek" -> {"real"}
Init == c = [wl |-> "1.55", res |-> 15, L0 |-> "1e-6", npx |-> 0, npy |-> 0, pol |-> "Ez"] /\ k = 1
Pick == /\ k <= Len(Dims) /\ \E v \in Choice(Dims[k]) : c' = Put(Dims[k], v)
        /\ k' = k + 1
Emit == k = Len(Dims) + 1 /\ PrintT("SCN " \o ToJson(c)) /\ k' = k + 1 /\ UNCHANGED c
Next == Pick \/ Emit
Spec == Init /\ [][Next]_<<c, k>>
=============================================================================
