------------------------------- MODULE Judge -------------------------------
(* Records observed from the running code are judged one by one: the module that
   extends this one defines the set of names of the clauses of the specification
   that a record breaks, and TJudge == Report(<that set>). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
NRec == Len(Recs)
Chunks == 8
VARIABLE pos
TInit == pos \in 1..(IF NRec < Chunks THEN NRec ELSE Chunks)
TNext == pos + Chunks <= NRec /\ pos' = pos + Chunks
Report(v) == v # {} => PrintT("BAD " \o ToJson([i |-> pos, clauses |-> v]))
TDone == TLCGet("stats").distinct = NRec
Has(o,f) == f \in DOMAIN o
Bad(name,ok) == IF ok THEN {} ELSE {name}
SeqSet(s) == {s[i] : i \in DOMAIN s}
=============================================================================
