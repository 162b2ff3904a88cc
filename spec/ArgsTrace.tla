----------------------------- MODULE ArgsTrace -----------------------------
EXTENDS Args, Judge
V(r) == LET o == r.o  a == r.c.a  v == Verdict(a) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("well_formed_problem_rejected", v = "good" => o.cb = "ok" /\ o.cbn = "ok")
  \cup Bad("malformed_problem_accepted", v \in {"bad","novars"} => o.cb = "err" /\ o.cbn = "err")
  \cup Bad("optimize_accepts_what_is_malformed", (r.c.opt /\ v = "bad") => o.op = "err")
  \cup Bad("optimize_rejects_what_is_well_formed", (r.c.opt /\ v = "good") => o.op = "ok")
  \cup Bad("arguments_modified", o.same = 1)
  \cup Bad("description_of_well_formed_problem_rejected", v \in {"good","novars"} => o.q = <<>>)
  \cup Bad("corresponding_icam_extrinsics", v \in {"good","novars"} => o.icam = [k \in 1..5 |-> IF k \in 2..(a.ncam+1) THEN Icam(Reduced(a),k-2) ELSE -2])
TJudge == Report(V(Recs[pos]))
=============================================================================
