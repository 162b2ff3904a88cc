----------------------------- MODULE LensTrace -----------------------------
(* o.py: what the python functions made of the name (error: "" or the exception), o.c: the C functions *)
EXTENDS Lens, Judge
V(r) == LET o == r.o  n == r.c.n  v == Verdict(n) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF v # "ok" THEN Bad("accepts_a_name_that_is_not_one", o.npy = "error" /\ o.metapy = "error" /\ o.c.ok = 0 /\ o.c.valid = 0)
       \cup Bad("reason_of_rejection", o.c.reason = v)
       \cup Bad("type_from_name", o.c.type # -1 => n.base \in Configured)
  ELSE Bad("rejects_a_name", o.npy # "error" /\ o.metapy # "error" /\ o.c.ok = 1 /\ o.c.valid = 1)
    \cup (IF o.npy = "error" \/ o.metapy = "error" \/ o.c.ok # 1 THEN {} ELSE
       Bad("number_of_parameters", o.npy = "ok" /\ o.N = NumParams(n) /\ o.c.N = NumParams(n))
       \cup Bad("metadata", o.meta = [has_core |-> 1, can_project_behind_camera |-> IF Behind(n) THEN 1 ELSE 0, has_gradients |-> 1, noncentral |-> IF Noncentral(n) THEN 1 ELSE 0])
       \cup Bad("configuration", o.cfg = Values(n) /\ o.cfgkeys = SeqSet(IF n.cfg = <<>> THEN <<>> ELSE Keys(n.base)))
       \cup Bad("type_from_name", o.c.type = o.c.typeid)
       \cup Bad("base_name", o.c.base = n.base)
       \cup Bad("name_round_trip", o.c.named = 1 /\ o.c.again = 1)
       \cup Bad("name_buffer", o.c.tight = 1 /\ o.c.short = 1)
       \cup Bad("usable_in_project", o.proj = 1)
       \cup Bad("listed_as_supported", o.listed = 1)
       \cup (IF n.base = SPLINED THEN LET v2 == Values(n) IN
               Bad("knots", /\ Len(o.ux) = v2[2] /\ Len(o.uy) = v2[3]
                    /\ v2[4] = 180 => /\ \A i \in 1..v2[2] : o.ux[i] = Knot180(n,v2[2],i)
                                      /\ \A i \in 1..v2[3] : o.uy[i] = Knot180(n,v2[3],i))
             ELSE Bad("knots", o.ux = <<>>)))
TJudge == Report(V([c |-> Recs[pos].c, o |-> IF Has(Recs[pos].o,"cfgkeys") THEN [Recs[pos].o EXCEPT !.cfgkeys = SeqSet(@)] ELSE Recs[pos].o]))
=============================================================================
