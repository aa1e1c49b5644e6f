---------------------------- MODULE FilterEvents -----------------------------
(* Density filter, projection, material interpolation and their derivatives,    *)
(* each call judged on its own.  e.x is the argument, e.ret the result.         *)
EXTENDS OptEvents

FT == CN("1e-9")
FA == CN("1e-11")
Cells(F) == {<<i, j>> : i \in 1..Len(F), j \in 1..Len(F[1])}
At(F, c) == F[c[1]][c[2]]
Uniform(F) == \A c \in Cells(F) : CEq(At(F, c), F[1][1])
DesE(tr, e) == [mask |-> Arr(tr, e.mask), np |-> e.np, R |-> e.R, eta |-> e.eta, beta |-> e.beta, epsm |-> e.epsm]

FilterCl(tr, e) ==
  LET d == DesE(tr, e)  x == Arr(tr, e.x)  y == Arr(tr, e.ret)  n == <<Len(x), Len(x[1])>> IN
  Cat(<< V(GClose(y, Filtered(d, x), FT, FA), "C09:filtered density is not the cone-weighted average"),
         V(\A c \in Cells(x) : ~In(d, c[1], c[2]) => CEq(At(y, c), At(x, c)), "C09:filter changed a cell outside of the design"),
         V(Uniform(x) => \A c \in Cells(x) :
             (In(d, c[1], c[2]) /\ (d.R = 0 \/ (Clear(c[1], n[1], d.np[1], d.R) /\ Clear(c[2], n[2], d.np[2], d.R))))
               => RClose(At(y, c), At(x, c), FT, 0),
           "C09:filter does not preserve a uniform density") >>)

ProjectCl(tr, e) ==
  LET x == Flat(Arr(tr, e.x))  y == Flat(Arr(tr, e.ret))  in01(z) == RLe(0, z) /\ RLe(z, 1) IN
  Cat(<< V(\A n \in 1..Len(x) : RClose(y[n], Proj(e.beta, e.eta, x[n]), FT, FA), "C09:projected density"),
         V(\A n \in 1..Len(x) : (CEq(x[n], 0) => RClose(y[n], 0, 0, FT)) /\ (CEq(x[n], 1) => RClose(y[n], 1, FT, 0)),
           "C09:projection moves the ends of [0,1]"),
         V(\A n \in 1..Len(x) : in01(x[n]) => RLe(CN("-1e-12"), y[n]) /\ RLe(y[n], CN("1.000000000001")), "C09:projection leaves [0,1]"),
         V(\A n, k \in 1..Len(x) : RLe(x[n], x[k]) => RLe(y[n], CAdd(y[k], CN("1e-12"))), "C09:projection is not monotonic") >>)
DProjectCl(tr, e) ==
  LET x == Flat(Arr(tr, e.x))  y == Flat(Arr(tr, e.ret)) IN
  V(\A n \in 1..Len(x) : RClose(y[n], DProj(e.beta, e.eta, x[n]), FT, CMul(FA, CAdd(1, e.beta))), "C09:derivative of the projection")

Image1Cl(tr, e) ==
  LET d == DesE(tr, e)  x == Arr(tr, e.x)  y == Arr(tr, e.ret)
      full == [d EXCEPT !.mask = Map1(@, LAMBDA z : CN(1))]
      R == Filtered(d, x)
  IN Cat(<< V(\A c \in Cells(x) : RClose(At(y, c), Material(e.epsm, Proj(e.beta, e.eta, At(R, c))), FT, FA), "C09:permittivity of a density"),
            V((\A c \in Cells(x) : RLe(0, At(x, c)) /\ RLe(At(x, c), 1))
                => \A c \in Cells(x) : In(d, c[1], c[2]) =>
                     RLe(CN("0.999999999"), At(y, c)) /\ RLe(At(y, c), CMul(CN("1.000000001"), e.epsm)),
              "C09:permittivity out of range") >>)
FilterEvs == {"filter", "project", "dproject", "image", "material", "density", "dmaterial", "dfilter", "there_and_back"}
FilterClauses(tr, e) ==
  IF e.exc # "" THEN <<"C09:" \o e.ev \o " raised">>
  ELSE IF e.ret = 0 \/ (e.ev # "dmaterial" /\ Sh(tr, e.ret) # Sh(tr, e.x)) THEN <<"C09:" \o e.ev \o " result misshapen">>
  ELSE CASE e.ev = "filter" -> FilterCl(tr, e)
    [] e.ev = "project" -> ProjectCl(tr, e)
    [] e.ev = "dproject" -> DProjectCl(tr, e)
    [] e.ev = "image" -> Image1Cl(tr, e)
    [] e.ev = "material" -> V(GClose(Arr(tr, e.ret), Map1(Arr(tr, e.x), LAMBDA z : Material(e.epsm, z)), FT, FA), "C09:permittivity of a projected density")
    [] e.ev = "density" -> V(GClose(Arr(tr, e.ret), Map1(Arr(tr, e.x), LAMBDA z : Density(e.epsm, z)), FT, FA), "C09:density of a permittivity")
    [] e.ev = "there_and_back" -> V(GClose(Arr(tr, e.ret), Arr(tr, e.x), FT, FA), "C09:conversions do not invert each other")
    [] e.ev = "dmaterial" -> V(\A z \in Range(Flat(Arr(tr, e.ret))) : RClose(z, CSub(e.epsm, 1), FT, FA), "C09:derivative of the permittivity")
    (* e.ret is the derivative of the filter applied to the direction e.x         *)
    [] e.ev = "dfilter" -> LET d == DesE(tr, e) IN
         V(GClose(Arr(tr, e.ret), Filtered(d, Arr(tr, e.x)), FT, FA), "C09:derivative of the filter")
=============================================================================
