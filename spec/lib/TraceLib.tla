------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded executions and forming named verdicts.                     *)
EXTENDS Layers, Json, IOUtils, SequencesExt
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
V(ok, name) == IF ok THEN <<>> ELSE <<name>>
Has(e, k) == k \in DOMAIN e
Cat(ss) == FlattenSeq(ss)
=============================================================================
