----------------------------- MODULE PlotEvents ------------------------------
(* What is drawn.  A drawing is observed as the array of the image, its colour   *)
(* limits, whether the colour scale is logarithmic, its extent and the axes      *)
(* around it.  Optional arguments and results are sequences of length 0 or 1.    *)
EXTENDS StructEvents

Opt1(s, d) == IF s = <<>> THEN d ELSE s[1]
Tiled(F, t) == [i \in 1..Len(F) |-> [j \in 1..t * Len(F[1]) |-> F[i][((j - 1) % Len(F[1])) + 1]]]
Transposed(F) == [j \in 1..Len(F[1]) |-> [i \in 1..Len(F) |-> F[i][j]]]
AbsG(F) == Map1(F, LAMBDA z : RAbs(z))

(* the fields a drawing needs, as array numbers (0: not solved)                  *)
Needs(ob, e) ==
  LET lin == ob.obs.lin[ob.q.pol]  nl == ob.obs.nl[ob.q.pol]
  IN CASE e.what = "eps" -> <<>>
       [] e.what = "diff" -> << lin, nl >>
       [] OTHER -> IF e.nl THEN << nl >> ELSE << lin >>
(* drawn quantity *)
Quantity(tr, ob, e) ==
  LET n == Needs(ob, e)  F(k) == Arr(tr, n[k]) IN
  CASE e.what = "eps" -> AbsG(Arr(tr, ob.obs.eps))
    [] e.what = "abs" -> AbsG(F(1))
    [] e.what = "re" -> Map1(F(1), LAMBDA z : CRe(z))
    [] e.what = "diff" -> LET d == Map2(AbsG(F(1)), AbsG(F(2)), LAMBDA a, b : CSub(a, b))
                          IN IF e.normalize THEN Map1(d, LAMBDA z : CDiv(z, RMaxAbs(Flat(F(1))))) ELSE d
(* colour limits *)
Limits(e, Q) ==
  LET m == RMaxAbs(Flat(Q)) IN
  CASE e.what = "abs" -> << Opt1(e.vmin, CN(0)), Opt1(e.vmax, m) >>
    [] e.what = "re" -> << CNeg(m), m >>
    [] e.what = "diff" -> LET v == Opt1(e.vmax, m) IN << CNeg(v), v >>
    [] e.what = "eps" -> << RMin(Flat(Q)), RMax(Flat(Q)) >>
PT == CN("1e-12")
(* sc: magnitude of what the drawn values were computed from                    *)
ImageClausesSc(tr, Q, lim, log, d, sc) ==
  LET W == Transposed(Q)  nx == Len(W[1])  ny == Len(W)
      box == << CN("-0.5"), CSub(nx, CN("0.5")), CN("-0.5"), CSub(ny, CN("0.5")) >> IN
  IF ShapeOf(tr, d.img) # <<ny, nx>> THEN <<"C20:shape of the image">>
  ELSE Cat(<<
    V(\A j \in 1..ny : \A i \in 1..nx : RClose(Arr(tr, d.img)[j][i], W[j][i], PT, CMul(PT, sc)), "C20:drawn values"),
    (* (an empty range is widened by the drawing library) *)
    V(RClose(lim[1], lim[2], 0, CN("1e-300")) \/ (\A k \in 1..2 : RClose(d.clim[k], lim[k], PT, CAdd(CMul(PT, sc), CN("1e-300")))), "C20:colour limits"),
    V(d.log = log, "C20:colour scale"),
    V(\A k \in 1..4 : RClose(d.ext[k], box[k], 0, CN("1e-9")), "C20:extent of the image"),
    V(\A k \in 1..4 : RClose(d.axl[k], box[k], 0, CN("1e-9")), "C20:limits of the axes") >>)
ImageClauses(tr, Q, lim, log, d) == ImageClausesSc(tr, Q, lim, log, d, RMaxAbs(Flat(Q)))
DrawScale(tr, ob, e, Q) == IF e.what # "diff" THEN RMaxAbs(Flat(Q))
  ELSE LET n == Needs(ob, e) m == RMax(<<RMaxAbs(Flat(Arr(tr, n[1]))), RMaxAbs(Flat(Arr(tr, n[2])))>>)
       IN IF e.normalize THEN CDiv(m, RMaxAbs(Flat(Arr(tr, n[1])))) ELSE m

Draw(tr, ob, e) ==
  IF \E k \in 1..Len(Needs(ob, e)) : Needs(ob, e)[k] = 0 THEN V(e.exc # "", "C20:drew a field that was not solved")
  ELSE IF e.exc # "" THEN <<"C20:drawing raised">>
  ELSE IF e.what = "diff" /\ e.normalize /\ CEq(RMaxAbs(Flat(Arr(tr, Needs(ob, e)[1]))), 0) THEN <<>>
  ELSE LET Q == TLCEval(Tiled(Quantity(tr, ob, e), e.t)) IN
    Cat(<< ImageClausesSc(tr, Q, Limits(e, Q), e.log, e.d, DrawScale(tr, ob, e, Q)),
           V(e.given => e.same, "C20:not drawn on the given axes"),
           V(~e.given => e.fresh, "C20:not drawn on new axes"),
           V(e.d.nax = 1 + (IF e.cbar THEN 1 ELSE 0), "C20:colour bar"),
           V((e.d.ncoll > 0) = (e.outline /\ Len(Q) > 1 /\ Len(Q[1]) > 1), "C20:outline"),
           V(e.nimg = 1, "C20:number of images") >>)

(* frames of one period of the field, first one shown again at the end           *)
Ani(tr, e) ==
  IF e.exc # "" THEN <<"C20:animation raised">>
  ELSE LET F == Arr(tr, e.F)  m == RMaxAbs(Flat(F))
           ph(k) == LET a == CDiv(CMul(CMul(2, RPi), k - 1), e.n - 1) IN CAdd(RCos(a), CMul(CN("0 1"), RSin(a)))
       IN IF Len(e.frames) # e.n THEN <<"C20:number of frames">>
          ELSE FlattenSeq([k \in 1..e.n |-> ImageClauses(tr, Map1(F, LAMBDA z : CRe(CMul(z, ph(k)))), << CNeg(m), m >>, FALSE,
                 [e.frames[k] EXCEPT !.img = @])])

(* temporary plots: folder contents as names with kind and digest               *)
Frames(n, it) == {k \in 0..n - 1 : k % it = 0}
Pad6(k) == LET s == ToString(k) IN CASE Len(s) = 1 -> "00000" \o s [] Len(s) = 2 -> "0000" \o s [] Len(s) = 3 -> "000" \o s [] OTHER -> s
PlotName(k) == "it" \o Pad6(k) \o ".png"
Names(d) == {d[k].n : k \in 1..Len(d)}
Kept(d) == {d[k] : k \in {x \in 1..Len(d) : d[x].k = "dir" \/ d[x].k = "linkdir"}}
TempRun(tr, e) ==
  IF e.exc # "" THEN <<"C20:run with temporary plots raised">>
  ELSE LET n == Len(e.recs) - e.n0
           new == {PlotName(k) : k \in Frames(n, e.it)}
           links == {e.before[k].n : k \in {x \in 1..Len(e.before) : e.before[x].k \in {"link", "dangling"}}} IN
  Cat(<< V(new \subseteq Names(e.after), "C20:a temporary plot is missing"),
         V(\A k \in 1..Len(e.after) : e.after[k].k = "file" => e.after[k].n \in new, "C20:an unexpected file in the folder of temporary plots"),
         V(Names(e.after) \ (new \cup links) = {x.n : x \in Kept(e.before)} /\ Kept(e.before) \subseteq Kept(e.after), "C20:directories in the folder of temporary plots were touched"),
         V(e.outb = e.outa, "C20:something outside of the folder of temporary plots was touched"),
         V(\A k \in 1..Len(e.sizes) : e.sizes[k] = e.size, "C20:size of a temporary plot"),
         V(Len(e.recs) = Len(e.recs1) /\ (\A k \in 1..Len(e.recs) : CEq(e.recs[k], e.recs1[k])) /\ e.eps = e.eps1 /\ e.rho = e.rho1,
           "C20:temporary plots changed the run") >>)

(* one temporary plot of the present state                                      *)
PlotIt(tr, ob, e) ==
  IF e.exc # "" THEN <<"C20:plot of an iteration raised">>
  ELSE LET E0 == Arr(tr, ob.obs.lin["Ez"])
           vmin == CMul(4, RSqrt(e.win))  vmax == CDiv(RMaxAbs(Flat(E0)), CN("1.5"))
           one(k) == LET p == e.parts[k]  Q(F) == AbsG(F) IN
             CASE e.whats[k] = "eps" -> ImageClauses(tr, AbsG(Arr(tr, ob.obs.eps)), Limits([what |-> "eps"], AbsG(Arr(tr, ob.obs.eps))), FALSE, p.d)
                                        \o V(p.title = "Permittivity", "C20:title")
               [] e.whats[k] = "elin" -> ImageClauses(tr, AbsG(E0), << vmin, vmax >>, TRUE, p.d) \o V(p.title = "Linear field", "C20:title")
               [] e.whats[k] = "enl" -> ImageClauses(tr, AbsG(Arr(tr, ob.obs.nl["Ez"])), << vmin, vmax >>, TRUE, p.d) \o V(p.title = "Nonlinear field", "C20:title")
               [] e.whats[k] = "of" -> V(Len(p.y) = Len(e.recs) /\ (\A i \in 1..Len(p.y) : CEq(p.x[i], i) /\ CEq(p.y[i], e.recs[i])), "C20:drawn objective")
                                       \o V(p.title = "Objective", "C20:title")
       IN IF Len(e.parts) # Len(e.whats) THEN <<"C20:number of panels">>
          ELSE FlattenSeq([k \in 1..Len(e.parts) |-> one(k)])
               \o V(e.new = << PlotName(e.k) >>, "C20:file of a temporary plot")

PlotEvs == {"draw", "ani", "temp_run", "plot_it", "prepare"}
PlotClauses(tr, st, e) ==
  CASE e.ev = "ani" -> Ani(tr, e)
    [] e.ev = "temp_run" -> TempRun(tr, e)
    [] e.ev = "prepare" -> <<>>
    [] OTHER -> LET ob == Obj(st, e.o) IN
         Cat(<< IF e.ev = "draw" THEN Draw(tr, ob, e) ELSE PlotIt(tr, ob, e),
                V(e.obs = ob.obs, "C20:drawing changed the state") >>)
(* "prepare" sets the input power by hand                                        *)
PlotAfter(st, e) == IF e.ev = "prepare" THEN PutObj(st, e.o, [Obj(st, e.o) EXCEPT !.obs = e.obs]) ELSE st
=============================================================================
