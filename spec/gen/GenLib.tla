------------------------------- MODULE GenLib -------------------------------
(* Choosing a configuration one dimension at a time, so that TLC -simulate      *)
(* samples and TLC -bfs enumerates the configuration space.                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES c, k
Put(n, v) == (n :> v) @@ c

(* BIG=1: fewer, larger grids with thick layers                                  *)
BIG == "BIG" \in DOMAIN IOEnv /\ IOEnv.BIG = "1"
BigN(n) == CASE n = "Nx" -> {1, 16, 21, 27, 34}
             [] n = "Ny" -> IF c.Nx = 1 THEN {40, 73, 130} ELSE {1, 15, 19, 24, 31}
BigL(n) == IF n < 5 THEN {0} ELSE {0, 3, 6, (n \div 2) - 2}

(* dimensions shared by most scenarios; a choice may depend on earlier ones     *)
SetupDims == <<"pol", "Nx", "Ny", "npx", "npy", "wl", "res", "L0", "epsk", "srck">>
Layer(n) == IF BIG THEN BigL(n) ELSE IF n < 5 THEN {0, 0, 1} ELSE 0..((n \div 2) - 1)
SetupChoice(n) ==
  CASE n = "pol" -> {"Ez", "Hz"}
    [] n = "Nx" -> IF BIG THEN BigN(n) ELSE {1, 2, 3} \cup 4..13
    [] n = "Ny" -> IF BIG THEN BigN(n) ELSE IF c.Nx < 3 THEN 5..13 ELSE {1, 2, 3} \cup 4..13
    [] n = "npx" -> Layer(c.Nx)
    [] n = "npy" -> Layer(c.Ny)
    [] n = "wl" -> {"0.8", "1.55", "2.0", "10.0"}        \* vacuum wavelength in micron
    [] n = "res" -> {8, 12, 20, 35}                      \* cells per wavelength
    [] n = "L0" -> {"1e-6", "1e-6", "1e-9", "1.0"}
    [] n = "epsk" -> {"ones", "real", "real", "lossy", "complex", "int", "metal", "steps", "guide", "cross"}
    [] n = "srck" -> {"point", "line", "random", "faint", "tiny", "strong", "real", "zero"}
=============================================================================
