------------------------------ MODULE MCRequest ------------------------------
(* Evaluations of objectives that are answered from what an earlier evaluation   *)
(* left behind.  An optimization remembers the answer together with a key; it may *)
(* answer from memory when the key is the present one.  Checked: with these        *)
(* components an answer is always that of the present state, and the stored fields *)
(* (from which gradients are made) are those of the present state too.  Leaving    *)
(* out objective, omega, source, nonlinearity or fields is refuted (Key is a       *)
(* constant for that purpose); sim and operator are implied by the fields.         *)
EXTENDS Session, TLC
CONSTANTS Tokens, Oms, Objectives, MaxSims, MaxNl, MaxOps, Key
VARIABLES sims, opt, ob, steps, last
vars == <<sims, opt, ob, steps, last>>

(* an objective is of linear fields alone unless it is an even one                 *)
Linear(o) == o % 2 = 1
None == [k |-> "nothing"]
(* s: state; A, fl, fn: identities of the operator and of the stored fields         *)
New == [s |-> NewSim(CHOOSE t \in Tokens : TRUE, CHOOSE w \in Oms : TRUE, 0), A |-> 0, fl |-> 0, fn |-> 0]
Init == sims = <<New>> /\ opt = None /\ ob \in Objectives /\ steps = 0 /\ last = None

KeyOf(i) == LET x == sims[i] IN
  [objective |-> ob, sim |-> i, operator |-> x.A, omega |-> x.s.om, source |-> x.s.src,
   nonlinearity |-> x.s.nls, fields |-> <<x.fl, x.fn>>]
Keys == DOMAIN KeyOf(1)
Answer(s) == <<s.lin, IF Linear(ob) THEN NoField ELSE s.nl>>
Wanted(s) == <<LinProv(s), IF Linear(ob) THEN NoField ELSE NlProv(s)>>

Id == steps + 1
(* identities of fields follow from what an operation recomputes                    *)
Put(i, s) == LET x == sims[i] IN
  sims' = [sims EXCEPT ![i] = [s |-> s, A |-> x.A, fl |-> IF s.lin = NoField THEN 0 ELSE x.fl, fn |-> IF s.nl = NoField THEN 0 ELSE x.fn]]
Solved(i, s, l, n) == [s |-> s, A |-> sims[i].A,
   fl |-> IF l THEN Id ELSE sims[i].fl, fn |-> IF n THEN Id ELSE sims[i].fn]
Assign(i, s) == sims' = [sims EXCEPT ![i] = [s |-> s, A |-> Id, fl |-> 0, fn |-> 0]]
Quiet == UNCHANGED <<opt, ob>> /\ last' = None

Change(i) == LET s == sims[i].s IN Quiet /\
  \/ \E t \in Tokens : Assign(i, SetEps(s, t))
  \/ \E t \in Tokens \cup {0} : Put(i, SetSrc(s, t))
  \/ \E w \in Oms : Put(i, SetOm(s, w))
  \/ \E t \in Tokens : Len(s.nls) < MaxNl /\ Put(i, AddNl(s, t))
  \/ Put(i, ClearNl(s))
  \/ sims' = [sims EXCEPT ![i] = Solved(i, SolveLin(s), TRUE, FALSE)]
  \/ \E g \in BOOLEAN : sims' = [sims EXCEPT ![i] = Solved(i, SolveNl(s, g), s.lin = NoField /\ ~g, TRUE)]
  \/ Len(sims) < MaxSims /\ sims' = Append(sims, [s |-> s, A |-> Id, fl |-> Id, fn |-> Id])
Other == /\ \E o \in Objectives : o # ob /\ ob' = o
         /\ last' = None /\ UNCHANGED <<sims, opt>>
Same(a, b) == a # None /\ \A c \in Key : a[c] = b[c]
Remembered(i) == opt # None /\ Same(opt.key, KeyOf(i))
Request(i) == LET s == sims[i].s  t == Evaluate(s, Linear(ob)) IN
  /\ IF Remembered(i) THEN UNCHANGED <<sims, opt>>
     ELSE LET x == Solved(i, t, TRUE, ~Linear(ob)) IN
          /\ sims' = [sims EXCEPT ![i] = x]
          /\ opt' = [val |-> Answer(t), key |-> [KeyOf(i) EXCEPT !.fields = <<x.fl, x.fn>>]]
  /\ last' = [k |-> "answer", got |-> opt'.val, want |-> Wanted(s), stored |-> Answer(sims'[i].s)]
  /\ UNCHANGED ob
Next == /\ steps < MaxOps /\ steps' = Id
        /\ (\E i \in 1..Len(sims) : Change(i) \/ Request(i)) \/ Other
Spec == Init /\ [][Next]_vars

Truthful == last # None => last.got = last.want
Stored == last # None => last.stored = last.want
(* asking again for the same thing is answered from memory                          *)
Twice == [][(last # None /\ last'.k = "answer" /\ ob' = ob /\ last'.want = last.want /\ Len(sims) = 1) => opt' = opt]_vars
=============================================================================
