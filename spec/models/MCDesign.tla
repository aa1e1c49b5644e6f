------------------------------ MODULE MCDesign -------------------------------
(* The maps from densities to permittivities (lib/Design), on all small designs: *)
(* a state is a design and a density, a transition raises the density of a cell. *)
EXTENDS Layers, Design, TLC
CONSTANTS Shapes, Levels, Projections, Full
VARIABLES d, rho, lvl, fil, img      \* filtered density and permittivity of rho
vars == <<d, rho, lvl, fil, img>>

OldOf(a, b) == Grid(a, b, LAMBDA i, j : CN(7 + 3 * i + j))
Nx == Len(rho)
Ny == Len(rho[1])
Lv(n) == CDiv(n, Levels - 1)
Old == OldOf(Nx, Ny)
Cs == (1..Nx) \X (1..Ny)
At(F, c) == F[c[1]][c[2]]
GridOf(f, a, b) == Grid(a, b, LAMBDA i, j : Lv(f[<<i, j>>]))
Eq(A, B) == GClose(A, B, CN("1e-9"), CN("1e-12"))
In01(z) == RLe(CN("-1e-12"), z) /\ RLe(z, CN("1.000000000001"))
Unif(F) == \A c \in Cs : CEq(At(F, c), F[1][1])
FullMask(x) == [x EXCEPT !.mask = Map1(@, LAMBDA z : CN(1))]
Clr(c) == d.R = 0 \/ (Clear(c[1], Nx, d.np[1], d.R) /\ Clear(c[2], Ny, d.np[2], d.R))

Masks(a, b) == IF Full THEN [(1..a) \X (1..b) -> {0, 1}]
  ELSE {[c \in (1..a) \X (1..b) |-> 1], [c \in (1..a) \X (1..b) |-> (c[1] + c[2]) % 2], [c \in (1..a) \X (1..b) |-> IF c[1] > 1 /\ c[2] < b THEN 1 ELSE 0]}
Init == \E sh \in Shapes : \E mk \in Masks(sh[1], sh[2]) : \E p \in Projections : \E R \in {0, 1, 2, 3} :
        \E n1 \in {0, 1}, n2 \in {0, 1} :
         /\ (sh[1] < 3 => n1 = 0) /\ (sh[2] < 3 => n2 = 0)
         /\ d = [mask |-> Grid(sh[1], sh[2], LAMBDA i, j : CN(mk[<<i, j>>])), np |-> <<n1, n2>>, R |-> R, eta |-> CN(p[1]), beta |-> CN(p[2]), epsm |-> CN("6.25")]
         /\ lvl = [c \in (1..sh[1]) \X (1..sh[2]) |-> 0]
         /\ rho = GridOf(lvl, sh[1], sh[2])
         /\ fil = Filtered(d, rho) /\ img = Image(d, rho, OldOf(sh[1], sh[2]))
Next == \E c \in Cs : lvl[c] < Levels - 1 /\ lvl' = [lvl EXCEPT ![c] = @ + 1] /\ d' = d /\ rho' = GridOf(lvl', Nx, Ny)
        /\ fil' = Filtered(d, rho') /\ img' = Image(d, rho', Old)
Spec == Init /\ [][Next]_vars

(* C09, C11: admissible; other cells keep what they have                         *)
Admissible == \A c \in Cs :
  IF In(d, c[1], c[2]) THEN In01(Proj(d.beta, d.eta, At(fil, c))) /\ RLe(CN("0.999999999"), At(img, c)) /\ RLe(At(img, c), CN("6.250000001"))
  ELSE CEq(At(img, c), At(Old, c)) /\ CEq(At(fil, c), At(rho, c))
(* C09: uniform densities are preserved, except beside a layer; the disc weights  *)
(* are positive and do not depend on the direction                                *)
Uniform == Unif(rho) => \A c \in Cs : In(d, c[1], c[2]) => RClose(At(fil, c), IF Clr(c) THEN rho[1][1] ELSE 0, CN("1e-12"), CN("1e-14"))
Between == LET S == {At(rho, c) : c \in Cs} IN \A c \in Cs : In(d, c[1], c[2]) /\ Clr(c) =>
  (\E z \in S : RLe(z, CAdd(At(fil, c), CN("1e-12")))) /\ (\E z \in S : RLe(At(fil, c), CAdd(z, CN("1e-12"))))
(* a disc that counts as clear neither reaches a layer nor wraps around             *)
ClearDisc == d.np # <<0, 0>> \/ \A n \in 4..16 : \A i \in 1..n : \A p \in 1..3 : \A a \in (1 - d.R)..(d.R - 1) :
  Clear(i, n, p, d.R) => /\ i + a - 1 > p /\ i + a - 1 < n - p
                         /\ CEq(Stretch(i + a, n, p, TRUE, 1, 1, 1), 1) /\ CEq(Stretch(i + a, n, p, FALSE, 1, 1, 1), 1)
(* the filter knows no preferred axis                                              *)
Flip(F) == Grid(Len(F[1]), Len(F), LAMBDA i, j : F[j][i])
NoAxis == Eq(Filtered([d EXCEPT !.mask = Flip(@), !.np = <<d.np[2], d.np[1]>>], Flip(rho)), Flip(fil))
Ends == /\ RClose(Proj(d.beta, d.eta, 0), 0, 0, CN("1e-12")) /\ RClose(Proj(d.beta, d.eta, 1), 1, CN("1e-12"), 0)
        /\ RClose(Material(d.epsm, 0), 1, 0, 0) /\ RClose(Material(d.epsm, 1), d.epsm, CN("1e-12"), 0)
Inverse == \A c \in Cs : RClose(Density(d.epsm, Material(d.epsm, At(rho, c))), At(rho, c), CN("1e-12"), CN("1e-12"))
(* C09: periodic axes                                                             *)
Roll(F, a, b) == Grid(Nx, Ny, LAMBDA i, j : F[((i - 1 - a + Nx) % Nx) + 1][((j - 1 - b + Ny) % Ny) + 1])
Periodic ==
  /\ d.np[1] = 0 => Eq(Filtered([d EXCEPT !.mask = Roll(@, 1, 0)], Roll(rho, 1, 0)), Roll(fil, 1, 0))
  /\ d.np[2] = 0 => Eq(Filtered([d EXCEPT !.mask = Roll(@, 0, 1)], Roll(rho, 0, 1)), Roll(fil, 0, 1))
(* the filter is linear; it is symmetric where every disc is whole                *)
W0 == Grid(Nx, Ny, LAMBDA i, j : CDiv(1 + ((3 * i + 5 * j) % 7), 7))
Linear == Eq(Filtered(d, Map2(rho, W0, LAMBDA a, b : CAdd(a, CMul(2, b)))),
             Map2(fil, Filtered(d, W0), LAMBDA a, b : CAdd(a, CMul(2, b))))
DotF(A, B) == CDot(Flat(A), Flat(B))
Symmetric == d.np = <<0, 0>> => RClose(DotF(W0, Filtered(FullMask(d), rho)), DotF(rho, Filtered(FullMask(d), W0)), CN("1e-9"), CN("1e-12"))
(* C07, C08, C09: DImage is the derivative of Image                               *)
h == CN("1e-5")
Shifted(s) == Map2(rho, W0, LAMBDA a, b : CAdd(a, CMul(s, CMul(h, b))))
Derivative ==
  LET A == TLCEval(Image(d, Shifted(1), Old))  B == TLCEval(Image(d, Shifted(-1), Old))  D == TLCEval(DImage(d, rho, W0))
  IN \A c \in Cs : RClose(CDiv(CSub(At(A, c), At(B, c)), CMul(2, h)), At(D, c), CN("1e-5"), CN("1e-6"))
(* C12: any clipped step keeps the design admissible, and none leaves it outside  *)
(* raising a density nowhere lowers a permittivity, and changes only cells whose  *)
(* disc contains it                                                               *)
Monotone == [][ /\ \A c \in Cs : RLe(At(img, c), CAdd(At(img', c), CN("1e-12")))
                /\ \A c \in Cs : lvl'[c] # lvl[c] =>
                     \A b \in Cs : (d.np[1] > 0 /\ d.np[2] > 0 /\ (IF d.R = 0 THEN b # c ELSE (b[1] - c[1]) * (b[1] - c[1]) + (b[2] - c[2]) * (b[2] - c[2]) >= d.R * d.R))
                        => RClose(At(img, b), At(img', b), 0, CN("1e-9")) ]_vars
SmallShapes == {<<1, 3>>, <<3, 1>>, <<2, 2>>}
LargerShapes == {<<1, 6>>, <<6, 1>>, <<3, 3>>}
Proj4 == {<<"0.5", "1e-9">>, <<"0.3", "4">>, <<"0.5", "30">>}
=============================================================================
