----------------------------- MODULE MCGeometry ------------------------------
(* The shapes StructEvents judges the structure generators by, on every small    *)
(* choice of lengths (in cells, some with halves): a state is a geometry and a    *)
(* cell; walking to the next cell of the same material keeps to one piece.        *)
EXTENDS StructEvents
CONSTANTS Lengths, Widths, Gaps, Layers, Ports
VARIABLES e, N, mat, des
vars == <<e, N, mat, des>>

Fill(shapes) == TLCEval([c \in (1..N'[1]) \X (1..N'[2]) |->
  \E k \in 1..Len(shapes) : InShape(shapes[k], Coord(N'[1], e'.p.dl, c[1]), Coord(N'[2], e'.p.dl, c[2]))])
Edgy(shapes) == TLCEval([c \in (1..N'[1]) \X (1..N'[2]) |->
  \E k \in 1..Len(shapes) : NearEdge(shapes[k], Coord(N'[1], e'.p.dl, c[1]), Coord(N'[2], e'.p.dl, c[2]), CN("1e-9"))])
Kinds == {"two_port", "three_port", "N_port", "ortho_port", "accelerator", "accelerator_multi"}
Init == e = [kind |-> "none"] /\ N = <<0, 0>> /\ mat = <<>> /\ des = <<>>
Next == /\ e.kind = "none"
        /\ \E kd \in Kinds, L \in Lengths, H \in Lengths, w \in Widths, d \in Gaps, np \in Layers, n \in Ports :
           /\ kd = "accelerator_multi" => n % 2 = 1
           /\ e' = [kind |-> kd, np |-> <<np, np>>, n |-> n,
                    p |-> [dl |-> CN("0.5"), L |-> CDiv(L, 2), H |-> CDiv(H, 2), L2 |-> CDiv(L, 2), H2 |-> CDiv(H, 2), w |-> CDiv(w, 2), d |-> CDiv(d, 2),
                           l |-> CN(1), spc |-> CN(1), gap |-> CDiv(d, 2), lambda0 |-> CN(3), beta |-> CN(1)]]
           /\ N' = ShapeXY(e')
           /\ LET s == Port(e', N') IN
                /\ mat' = [in |-> Fill(s.mat), edge |-> Edgy(s.mat)]
                /\ des' = [in |-> Fill(s.des), edge |-> Edgy(s.des)]
Spec == Init /\ [][Next]_vars

Some == e.kind # "none"
Cs == (1..N[1]) \X (1..N[2])
MirX(c) == <<N[1] + 1 - c[1], c[2]>>
MirY(c) == <<c[1], N[2] + 1 - c[2]>>
Sharp(g, c) == ~g.edge[c]
Sym(g, m(_)) == \A c \in Cs : (Sharp(g, c) /\ Sharp(g, m(c))) => g.in[c] = g.in[m(c)]

Sizes == Some => N[1] >= 1 /\ N[2] >= 1 /\ N[1] >= 2 * e.np[1]
(* the design region is symmetric; it is material where the device is filled at first *)
DesignSym == (Some /\ e.kind # "ortho_port") => Sym(des, MirX) /\ Sym(des, MirY)
Filled == (Some /\ e.kind \in {"three_port", "N_port", "accelerator", "accelerator_multi"}) =>
  \A c \in Cs : des.in[c] => mat.in[c]
Slabs == (Some /\ e.kind \in {"accelerator", "accelerator_multi"}) => mat.in = des.in /\ Sym(mat, MirX) /\ Sym(mat, MirY)
Straight == (Some /\ e.kind = "two_port") => Sym(mat, MirX) /\ Sym(mat, MirY) /\ \A c \in Cs : mat.in[c] = mat.in[<<1, c[2]>>]
(* outputs mirror each other if rows lie symmetrically                              *)
Outputs == (Some /\ e.kind = "three_port" /\ N[2] % 2 = 0) => Sym(mat, MirY)
(* no material of the channel: particles pass                                       *)
Channel == (Some /\ e.kind = "accelerator") => \A c \in Cs :
  RLt(RAbs(Coord(N[1], e.p.dl, c[1])), CSub(Half(e.p.gap), CN("1e-9"))) => ~mat.in[c]
(* separate runs of material in the last column: the guides that leave               *)
ColAt(x) == [j \in 1..N[2] |-> mat.in[<<x, j>>]]
Runs(b) == Cardinality({j \in 1..Len(b) : b[j] /\ (j = 1 \/ ~b[j - 1])})
Clean(x) == \A j \in 1..N[2] : Sharp(mat, <<x, j>>)
GuideRows(k) == {j \in 1..N[2] : RLt(RAbs(CSub(Coord(N[2], e.p.dl, j), CMul(CSub(k - 1, Half(e.n - 1)), e.p.d))), CMul(e.p.dl, Half(Cells1(e.p.w, e.p.dl))))}
Leaving == (Some /\ e.kind = "N_port" /\ Clean(N[1])
            /\ \A k \in 1..e.n : GuideRows(k) # {}
            /\ RLt(CAdd(e.p.w, CMul(2, e.p.dl)), e.p.d)) => Runs(ColAt(N[1])) = e.n
Entering == (Some /\ e.kind \in {"two_port", "three_port", "ortho_port"} /\ Clean(1)) => Runs(ColAt(1)) <= 1
=============================================================================
