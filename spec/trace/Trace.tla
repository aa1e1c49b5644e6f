-------------------------------- MODULE Trace --------------------------------
(* Validation of recorded executions.  One behaviour per recorded trace; every  *)
(* event is consumed, failing clauses are collected, and the verdict of each    *)
(* trace is written out at its end (so a missing verdict is a machinery error). *)
EXTENDS DeviceEvents

VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>

St0 == [obj |-> <<>>, aux |-> <<>>]      \* no object yet

(* A simulation with its optimizations alone, in a process that has seen nothing *)
(* else: what it ends in and what its operations returned (e.pairs).             *)
AloneClauses(tr, e) ==
  IF e.fail # "" THEN <<"C23:the history of an object cannot be performed on its own: " \o e.fail>>
  ELSE Cat(<< V(e.same, "C23:an object returns other things on its own"),
    V(\A n \in 1..Len(e.pairs) : LET a == e.pairs[n].a  b == e.pairs[n].b IN
        (a = 0 <=> b = 0) /\ (a # b => Sh(tr, a) = Sh(tr, b) /\ GClose(Arr(tr, a), Arr(tr, b), CN("1e-6"), CN("1e-7"))),
      "C23:an object depends on the others that were used beside it") >>)
OptimClauses(e) ==
  Cat(<< V(e.exc = "", "C23,C07:constructing an optimization raised"),
         V(e.recs = <<>> /\ e.amps = <<>>, "C23:a new optimization has records") >>)

Check(tr, s, e) ==
  CASE e.ev = "new" -> NewClauses(tr, e)
    [] e.ev = "copy" -> CopyClauses(s, e)
    [] e.ev \in SimEvs -> SimClauses(tr, s, e)
    [] e.ev \in BoundaryEvs -> BoundaryClauses(tr, s, e)
    [] e.ev \in OptEvs -> OptClauses(tr, s, e)
    [] e.ev \in FilterEvs -> FilterClauses(tr, e)
    [] e.ev \in RunAny -> RunEvClauses(tr, s, e)
    [] e.ev \in ModeEvs -> ModeClauses(tr, s, e)
    [] e.ev \in ToolEvs -> ToolClauses(tr, e)
    [] e.ev \in StructEvs -> StructClauses(tr, e)
    [] e.ev \in PlotEvs -> PlotClauses(tr, s, e)
    [] e.ev \in DeviceEvs -> DeviceClauses(tr, s, e)
    [] e.ev = "solo" -> AloneClauses(tr, e)
    [] e.ev = "new_optim" -> OptimClauses(e)
    [] e.ev = "crash" -> <<"*:" \o e.what>>
    [] OTHER -> Assert(FALSE, <<"unknown event", e.ev>>)

After(tr, s, e) ==
  CASE e.ev = "new" -> NewAfter(tr, s, e)
    [] e.ev = "copy" -> CopyAfter(s, e)
    [] e.ev \in SimEvs -> SimAfter(s, e)
    [] e.ev \in OptEvs -> OptAfter(tr, s, e)
    [] e.ev \in RunAny -> RunAfter(s, e)
    [] e.ev \in ModeEvs -> ModeAfter(s, e)
    [] e.ev \in PlotEvs -> PlotAfter(s, e)
    [] e.ev \in DeviceEvs -> DeviceAfter(s, e)
    [] OTHER -> s

(* further attributes of objects (optimizations, modes, nonlinearities) *)
Aux(s, e) == IF Has(e, "aux") THEN [s EXCEPT !.aux = e.aux @@ @] ELSE s

(* Bystanders: every other live object observes exactly what it did before, and  *)
(* no array owned by the caller was written to.                                  *)
FrameOwners(e) == CASE e.ev \in DeviceEvs -> "C22,C23:"
                    [] e.ev \in PlotEvs -> "C20,C23:"
                    [] e.ev \in DOMAIN FrameOwner -> FrameOwner[e.ev] \o ",C23:"
                    [] e.ev = "set_rho" -> "C02,C07,C23:"
                    [] e.ev \in OptEvs -> "C10,C07,C08,C16,C23:"
                    [] e.ev \in FilterEvs -> "C09,C23:"
                    [] e.ev \in {"direct", "c2r", "eigs", "average", "spacing", "equal", "operator"} -> "C17,C23:"
                    [] e.ev \in {"binarize", "util"} -> "C18,C23:"
                    [] e.ev \in StructEvs -> "C15,C23:"
                    [] e.ev = "run" -> "C11,C12,C23:"
                    [] e.ev \in {"check_deriv", "scan_frequency", "scan_power"} -> "C13,C23:"
                    [] e.ev \in ModeEvs -> "C14,C23:"
                    [] OTHER -> "C23:"
Frame(s, e) ==
  Cat(<< IF Has(e, "mut") THEN V(e.mut = <<>>, FrameOwners(e) \o "an array of the caller was modified") ELSE <<>>,
         IF Has(e, "others")
         THEN V(\A o \in DOMAIN e.others : o \in DOMAIN s.obj => e.others[o] = s.obj[o].obs,
                FrameOwners(e) \o "another object changed") ELSE <<>>,
         IF Has(e, "aux")
         THEN V(\A n \in DOMAIN e.aux : (n \in DOMAIN s.aux /\ \A k \in 1..Len(e.touch) : e.touch[k] # n) => e.aux[n] = s.aux[n],
                FrameOwners(e) \o "parameters, modes or records of another object changed") ELSE <<>> >>)

Ev(t) == Traces[t].ev
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = St0 /\ bad = <<>>
Step ==
  /\ l <= Len(Ev(tid))
  /\ LET tr == Traces[tid]
         e == Ev(tid)[l]
         b == Check(tr, st, e) \o Frame(st, e)
     IN /\ bad' = bad \o [k \in 1..Len(b) |-> <<l, e.ev, b[k]>>]
        /\ st' = Aux(After(tr, st, e), e)
  /\ l' = l + 1
  /\ UNCHANGED tid
Finish ==
  /\ l = Len(Ev(tid)) + 1
  /\ JsonSerialize(IOEnv.OUT_DIR \o "/" \o ToString(tid) \o ".json", [id |-> Traces[tid].id, bad |-> bad, n |-> l - 1])
  /\ l' = l + 1
  /\ UNCHANGED <<tid, st, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
