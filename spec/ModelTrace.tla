----------------------------- MODULE ModelTrace -----------------------------
(* Steps(i) of a record: what the getters of both models report after operation i, and
   whether the operation raised an exception. *)
EXTENDS Model, Judge
Ident(m) == [lens |-> m.lens, size |-> m.size, pose |-> [i \in 1..8 |-> m.pose], reg |-> m.reg, opt |-> m.opt, ii |-> m.ii, ie |-> m.ie]
RECURSIVE W(_,_,_,_)
W(ms,ops,obs,i) ==
  IF i > Len(ops) THEN {} ELSE
  LET o == ops[i]  r == Apply(ms,o)  b == obs[i] IN
  Bad("accepted_or_rejected_" \o o.op, b.err = r.err)
  \cup UNION { LET x == b.m[k] IN
       Bad("existence", (x = <<>>) = (r.m[k] = <<>>)) \cup
       (IF x = <<>> \/ r.m[k] = <<>> THEN {} ELSE
        LET m == r.m[k][1]  y == x[1]  why == IF k = o.k THEN o.op ELSE "other_model" IN
          Bad("lens_after_" \o why, y.lens = m.lens) \cup Bad("imagersize_after_" \o why, y.size = m.size)
          \cup Bad("pose_after_" \o why, y.pose = [i2 \in 1..8 |-> m.pose])
          \cup Bad("region_after_" \o why, y.reg = m.reg)
          \cup Bad("optimization_inputs_after_" \o why, y.opt = m.opt)
          \cup Bad("camera_indices_after_" \o why, y.ii = m.ii /\ y.ie = m.ie)
          \cup Bad("moved_since_calibration", m.opt # 0 => y.moved = Moved(m))) : k \in 1..2 }
  \cup Bad("optimization_inputs_match", (Len(b.match) = 1 /\ r.m[1] # <<>> /\ r.m[2] # <<>>) =>
            /\ (r.m[1][1].opt # r.m[2][1].opt => b.match[1] = 0)
            /\ (r.m[1][1].opt = 0 /\ r.m[2][1].opt = 0 => b.match[1] = 1)
            /\ (o.op \in {"copy","file"} => b.match[1] = 1 \/ o.from = o.k))
  \cup W(r.m,ops,obs,i+1)
V(r) == IF Has(r.o,"crash") THEN {"crash"} ELSE W(<< <<>>,<<>> >>,r.c,r.o.steps,1)
TJudge == Report(V(Recs[pos]))
=============================================================================
