------------------------------ MODULE MCSession -------------------------------
(* All behaviours of up to MaxObj simulations over small sets of tokens, with    *)
(* the operations of Session (the ones the trace specification uses): stored     *)
(* fields are never stale, evaluations depend on the current state only, reads   *)
(* change nothing, and no operation reaches another object.                      *)
EXTENDS Session, TLC
CONSTANTS MaxObj, Tokens, Oms, MaxNl, MaxOps
VARIABLES objs, last, steps
vars == <<objs, last, steps>>

Op(i, k) == last' = [o |-> i, k |-> k] /\ steps' = steps + 1
Upd(i, s, k) == objs' = [objs EXCEPT ![i] = s] /\ Op(i, k)
Reads == {"probe", "plot", "compute_nl"}
Init == /\ objs = <<NewSim(CHOOSE t \in Tokens : TRUE, CHOOSE w \in Oms : TRUE, 0)>>
        /\ last = [o |-> 1, k |-> "new"] /\ steps = 0
Act(i) == LET s == objs[i] IN
  \/ \E t \in Tokens : Upd(i, SetEps(s, t), "set_eps")
  \/ \E t \in Tokens \cup {0} : Upd(i, SetSrc(s, t), "set_src")
  \/ \E w \in Oms : Upd(i, SetOm(s, w), "set_om")
  \/ \E t \in Tokens : Len(s.nls) < MaxNl /\ Upd(i, AddNl(s, t), "add_nl")
  \/ Upd(i, ClearNl(s), "clear_nl")
  \/ \E t \in Tokens : Upd(i, SetRho(s, t), "set_rho")
  \/ \E t \in Tokens : Upd(i, SetRho(SetEps(s, t), t), "init_design")
  \/ Upd(i, SolveLin(s), "solve")
  \/ \E g \in BOOLEAN : Upd(i, SolveNl(s, g), "solve_nl")
  \/ Upd(i, IndexShift(s), "index_shift")
  \/ \E b \in BOOLEAN : Upd(i, Evaluate(s, b), IF b THEN "J" ELSE "Jnl")
  \/ \E r \in Reads : Upd(i, s, r)
  \/ Len(objs) < MaxObj /\ objs' = Append(objs, s) /\ Op(i, "copy")
  \/ Len(objs) < MaxObj /\ \E t \in Tokens : objs' = Append(objs, NewSim(t, CHOOSE w \in Oms : TRUE, 0)) /\ Op(i, "new")
Next == steps < MaxOps /\ \E i \in 1..Len(objs) : Act(i)
Spec == Init /\ [][Next]_vars

(* C02 *)
Fresh == \A i \in 1..Len(objs) : FieldsFresh(objs[i]) /\ OpFresh(objs[i])
SameConfig(s, p) == p.eps = s.eps /\ p.src = s.src /\ p.om = s.om /\ p.omOp = s.omOp
(* a field produced by the last operation is the solution for the state in force *)
Current == LET s == objs[last.o] IN
  /\ last.k \in {"solve", "index_shift", "J", "Jnl"} => s.lin # NoField /\ SameConfig(s, s.lin)
  /\ last.k \in {"solve_nl", "index_shift", "Jnl"} => s.nl # NoField /\ SameConfig(s, s.nl) /\ s.nl.nls = s.nls
  /\ last.k \in {"set_eps", "init_design"} => s.lin = NoField /\ s.nl = NoField
(* C10: an evaluation gives what it gives on a fresh object in the same state    *)
Rebuilt(s) == [NewSim(s.eps, s.omOp, s.src) EXCEPT !.om = s.om, !.nls = s.nls]
NoHistory == \A i \in 1..Len(objs) : LET s == objs[i]  f == Rebuilt(s) IN
  /\ Evaluate(s, TRUE).lin = Evaluate(f, TRUE).lin
  /\ Evaluate(s, FALSE).lin = Evaluate(f, FALSE).lin /\ Evaluate(s, FALSE).nl = Evaluate(f, FALSE).nl
  /\ Evaluate(Evaluate(s, FALSE), FALSE) = Evaluate(s, FALSE)
  /\ Evaluate(Evaluate(s, TRUE), TRUE) = Evaluate(s, TRUE)
(* C02, C23 *)
Frame == [][ /\ \A i \in 1..Len(objs) : i # last'.o => objs'[i] = objs[i]
             /\ last'.k \in Reads \cup {"copy", "new"} => \A i \in 1..Len(objs) : objs'[i] = objs[i]
             /\ last'.k \notin {"set_eps", "init_design"} => objs'[last'.o].eps = objs[last'.o].eps
             /\ last'.k # "set_src" => objs'[last'.o].src = objs[last'.o].src
             /\ last'.k \notin {"solve", "solve_nl", "index_shift", "J", "Jnl", "set_eps", "init_design"} =>
                  objs'[last'.o].lin = objs[last'.o].lin /\ objs'[last'.o].nl = objs[last'.o].nl
             (* C05: the stored linear field survives a nonlinear solve *)
             /\ last'.k = "solve_nl" /\ objs[last'.o].lin # NoField => objs'[last'.o].lin = objs[last'.o].lin ]_vars
View == <<objs, last>>
=============================================================================
