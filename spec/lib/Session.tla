------------------------------ MODULE Session -------------------------------
(* What a Simulation object owns, and how each public operation changes it.     *)
(*                                                                              *)
(* Values (permittivities, sources, frequencies, masks, ...) are opaque tokens: *)
(* small numbers in the design model, indices of recorded arrays in trace       *)
(* validation.  A stored field is represented by its provenance: the            *)
(* permittivity, source, frequency (and nonlinearities) it is the solution for. *)
(* The operations are functions on the state of one object, used unchanged by   *)
(* the design model (models/MCSession) and by the trace specification.          *)
EXTENDS Integers, Sequences, FiniteSets

NoField == [k |-> "none"]
NewSim(eps, om, zero) ==
  [eps |-> eps, om |-> om, omOp |-> om, src |-> zero, nls |-> <<>>, modes |-> <<>>,
   lin |-> NoField, nl |-> NoField, mask |-> 0, rho |-> 0]

(* assigning a permittivity rebuilds the operator at the present frequency and  *)
(* drops every stored field                                                     *)
SetEps(s, e) == [s EXCEPT !.eps = e, !.omOp = s.om, !.lin = NoField, !.nl = NoField]
SetSrc(s, q) == [s EXCEPT !.src = q]
SetOm(s, w) == [s EXCEPT !.om = w]
AddNl(s, n) == [s EXCEPT !.nls = Append(@, n)]
ClearNl(s) == [s EXCEPT !.nls = <<>>]
AddMode(s, m) == [s EXCEPT !.modes = Append(@, m)]
SetRho(s, r) == [s EXCEPT !.rho = r]

LinProv(s) == [k |-> "lin", eps |-> s.eps, src |-> s.src, om |-> s.om, omOp |-> s.omOp]
NlProv(s) == [k |-> "nl", eps |-> s.eps, src |-> s.src, om |-> s.om, omOp |-> s.omOp, nls |-> s.nls]

SolveLin(s) == [s EXCEPT !.lin = LinProv(s)]
(* A nonlinear solve starts from the stored linear field; it solves for one only *)
(* if none is stored and no starting field is given.                             *)
SolveNl(s, given) ==
  LET t == IF s.lin = NoField /\ ~given THEN SolveLin(s) ELSE s
  IN [t EXCEPT !.nl = NlProv(s)]
IndexShift(s) == SolveNl(SolveLin(s), FALSE)
(* evaluating an objective (or its gradient) of linear / also nonlinear fields   *)
Evaluate(s, linear) == IF linear THEN SolveLin(s) ELSE SolveNl(SolveLin(s), FALSE)

(* stored fields never belong to another permittivity than the reported one *)
FieldsFresh(s) ==
  /\ s.lin # NoField => s.lin.eps = s.eps
  /\ s.nl # NoField => s.nl.eps = s.eps
(* the operator used by a solve is that of the reported permittivity; its        *)
(* frequency is the one at the last assignment                                   *)
OpFresh(s) == s.lin # NoField => s.lin.omOp = s.omOp
=============================================================================
