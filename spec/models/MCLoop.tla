------------------------------- MODULE MCLoop --------------------------------
(* The three optimizer loops, one method call at a time, on the session of the   *)
(* simulation they drive.  A density and its image are the same token; the line   *)
(* search of L-BFGS tries arbitrary densities and the last one tried is accepted. *)
EXTENDS Loop, TLC
CONSTANTS K, Tries
VARIABLES s, m, lim, lin, prev, pc, it, tries, recs, amps, hist, grads, best, stop
vars == <<s, m, lim, lin, prev, pc, it, tries, recs, amps, hist, grads, best, stop>>

Scaled(q) == q + 100
Put(t) == SetEps(SetRho(s, t), t)
At(x) == [eps |-> x.eps, src |-> x.src, om |-> x.omOp]
Now == [rho |-> s.rho, eps |-> s.eps, src |-> s.src]
Init ==
  /\ m \in Methods /\ lim \in BOOLEAN /\ lin \in BOOLEAN
  /\ \E fresh \in BOOLEAN : LET s0 == AddNl(SetSrc(NewSim(7, 1, 0), 1), 5)  r == IF fresh THEN 7 ELSE 8 IN
       prev \in {"none", "solved"} /\ s = LET p == IF prev = "solved" THEN SolveNl(SolveLin(s0), FALSE) ELSE s0 IN SetEps(SetRho(p, r), r)
  /\ pc = IF Explicit(m) THEN "J" ELSE "try"
  /\ it = 0 /\ tries = 0 /\ recs = <<>> /\ amps = <<>> /\ grads = <<>> /\ stop = FALSE
  /\ hist = <<[rho |-> s.rho, eps |-> s.eps, src |-> s.src]>> /\ best = s.rho

Keep == UNCHANGED <<m, lim, lin, prev>>
(* explicit steps *)
J == /\ pc = "J" /\ it < K /\ pc' = "amp"
     /\ s' = Evaluate(s, lin) /\ recs' = Append(recs, At(s'.lin))
     /\ UNCHANGED <<it, tries, amps, hist, grads, best, stop>>
Amp == /\ pc = "amp" /\ pc' = "grad" /\ amps' = Append(amps, s.src)
       /\ s' = IF lim THEN SetSrc(IndexShift(s), Scaled(s.src)) ELSE s
       /\ UNCHANGED <<it, tries, recs, hist, grads, best, stop>>
Grad == /\ pc = "grad" /\ pc' = "upd"
        /\ s' = Evaluate(s, lin) /\ grads' = Append(grads, At(s'.lin))
        /\ UNCHANGED <<it, tries, recs, amps, hist, best, stop>>
Update == /\ pc = "upd" /\ pc' = "J" /\ it' = it + 1
          /\ s' = Put(10 + it)
          /\ hist' = Append(hist, [rho |-> s'.rho, eps |-> s'.eps, src |-> s'.src]) /\ best' = s'.rho
          /\ UNCHANGED <<tries, recs, amps, grads, stop>>
(* L-BFGS: evaluations of objective and gradient, then the callback              *)
Try == /\ pc = "try" /\ it < K /\ tries < Tries /\ ~stop
       /\ \E t \in {10 + it * 4 + tries, s.rho} : s' = Evaluate(Put(t), lin)
       /\ tries' = tries + 1 /\ UNCHANGED <<pc, it, recs, amps, hist, grads, best, stop>>
Accept == /\ pc = "try" /\ tries > 0 /\ pc' = "call" /\ best' = s.rho
          /\ UNCHANGED <<s, it, tries, recs, amps, hist, grads, stop>>
Call == /\ pc = "call" /\ pc' = "try" /\ it' = it + 1 /\ tries' = 0
        /\ LET a == Evaluate(s, lin)
               b == SetEps(SetRho(a, best), best)
           IN /\ recs' = Append(recs, At(a.lin)) /\ amps' = Append(amps, b.src)
              /\ s' = IF lim THEN SetSrc(IndexShift(b), Scaled(b.src)) ELSE b
        /\ hist' = Append(hist, [rho |-> s'.rho, eps |-> s'.eps, src |-> s'.src])
        /\ UNCHANGED <<grads, best, stop>>
(* it may give up at any time, then the best density is put back                 *)
Stop == /\ ~Explicit(m) /\ pc = "try" /\ ~stop /\ stop' = TRUE /\ s' = Put(best)
        /\ UNCHANGED <<pc, it, tries, recs, amps, hist, grads, best>>
Next == Keep /\ (J \/ Amp \/ Grad \/ Update \/ Try \/ Accept \/ Call \/ Stop)
Spec == Init /\ [][Next]_vars

Between == pc = "J" \/ (pc = "try" /\ tries = 0)
Ended == (Explicit(m) /\ pc = "J" /\ it = K) \/ stop
(* C11 *)
Images == s.eps = s.rho
Records == \A k \in 1..Len(recs) : (k < Len(hist) \/ Explicit(m)) =>
  recs[k].eps = RecordAt(m, hist[k], IF k < Len(hist) THEN hist[k + 1] ELSE hist[k]).eps /\ recs[k].src = hist[k].src
Count == /\ CountOK(m, it, Len(recs)) \/ ~Between
         /\ Ended => CountOK(m, K, Len(recs)) /\ Len(amps) = Len(recs)
(* C12 *)
Amplitudes == \A k \in 1..Len(amps) : amps[k] = hist[k].src
Rescaled == \A k \in 1..(Len(hist) - 1) : hist[k + 1].src = IF lim THEN Scaled(hist[k].src) ELSE hist[k].src
Gradients == \A k \in 1..Len(grads) : grads[k].eps = hist[k].eps /\
  grads[k].src = (IF k < Len(hist) THEN hist[k + 1].src ELSE s.src)
(* C02, C10, C11: what is found afterwards                                        *)
Left == Ended => /\ FieldsFresh(s)
                 /\ FieldsCurrent(m, lim) => s.lin \in {NoField, LinProv(s)} /\ s.nl \in {NoField, NlProv(s)}
                 /\ s.rho = best /\ hist[Len(hist)].rho = s.rho
=============================================================================
