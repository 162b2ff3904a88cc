--------------------------- MODULE SyntheticTrace ---------------------------
EXTENDS Synthetic, Judge
Abs(x) == IF x < 0 THEN -x ELSE x
Which(c) == IF c.usewhich = 0 THEN "all-cameras-must-see-full-board" ELSE c.which
VFrame(c,f,sizes) ==
  LET n == c.w*c.h ns == [i \in DOMAIN f.q |-> NSeen(f.q[i],sizes[i])]
      clear == \A i \in DOMAIN f.q : \A k \in DOMAIN f.q[i] : Clear(f.q[i][k],sizes[i]) IN
  Bad("not_what_the_pose_looks_like", f.err <= 2)
  \cup Bad("pose_off", \A k \in 1..6 : Abs(f.dev[k]) <= (IF k <= 3 THEN c.noiser ELSE c.noiset)*1000*(IF c.axis = 0 \/ c.axis = k THEN 1 ELSE 0) + 2)
  \cup Bad("not_visible_enough", clear => Enough(Which(c),ns,n))
  \cup Bad("too_oblique", c.oblique >= 0 => f.angle <= 100*c.oblique + 1)
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE IF Has(o,"exc") THEN {"exception"} ELSE
  IF c.kind = "boards" THEN
    (IF c.usewhich # 0 /\ c.which = "full" THEN Bad("unknown_requirement_accepted", Has(o,"fail"))
     ELSE IF Has(o,"fail") THEN {"failed"}
     ELSE Bad("shape", o.shape = 1) \cup Bad("models_modified", o.pure = 1)
       \cup (IF o.shape = 0 THEN {} ELSE UNION {VFrame(c,o.f[k],o.sizes) : k \in DOMAIN o.f}))
  ELSE IF Has(o,"fail") THEN {"failed"}
  ELSE Bad("residuals_of_perfect_data", o.x0 <= 5)
    \cup Bad("rejected_observations_of_perfect_data", o.xall <= 5)
    \cup Bad("something_else_modified", o.kept = 1)
    \cup Bad("noise_does_not_scale", o.scales = 1)
    \cup Bad("noise_does_not_follow_the_weights", o.weighted = 1)
    \cup Bad("default_noise", o.default = 1)
    \cup Bad("noise_is_not_what_was_asked_for", o.n < 60 \/ (Abs(o.mean)*Abs(o.mean) <= 64*(1000000 \div o.n) /\ Abs(o.var - 1000) <= 8*o.dev))
TJudge == Report(V(Recs[pos]))
=============================================================================
