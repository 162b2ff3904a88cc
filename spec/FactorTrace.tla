----------------------------- MODULE FactorTrace -----------------------------
EXTENDS Factor, Judge
(* the object holds what it was given last; a matrix without an exact sum of squares may be refused for its rounding errors only if it is singular *)
VOp(c,k,o) == LET op == c.ops[k] was == StateAt(c,k-1) now == StateAt(c,k) IN
  CASE op.op = "init" -> LET m == c.mats[op.m] IN
         IF ~Acceptable(m) THEN Bad("bad_matrix_accepted", o.refused = 1)
         ELSE IF Singular(m) THEN Bad("singular_matrix_accepted", o.refused = 1 \/ ~Hopeless(m))
         ELSE Bad("good_matrix_refused", o.refused = 0)
    [] op.op = "clear" -> Bad("cannot_be_emptied", o.refused = 0)
    [] op.op = "about" -> Bad("about", IF now = 0 THEN o.held = -1 /\ o.rcond = "refused" ELSE o.held = c.mats[now].n /\ (c.mats[now].n > 0 => o.rcond = "right"))
    [] op.op = "solve" ->
         IF now = 0 THEN Bad("solved_without_a_matrix", o.refused = 1)
         ELSE IF c.mats[now].n = 0 /\ ~RhsOk(op.form) THEN {}
         ELSE IF ~RhsOk(op.form) \/ op.sys \notin {"default","A","chain","CHOLMOD_A"} THEN Bad("bad_question_answered", o.refused = 1)
         ELSE IF o.refused = 1 THEN {"good_question_refused"}
         ELSE Bad("shape", o.shape = 1) \cup Bad("question_modified", o.pure = 1)
           \cup (IF op.form = "none" \/ c.mats[now].n = 0 THEN {} ELSE
              IF op.sys = "chain" THEN Bad("parts_of_the_factorization", o.chain = 1 /\ o.perm = 1 /\ o.unit = 1 /\ o.diag = 1)
              ELSE Bad("solution", \A i \in DOMAIN o.x : \A j \in 1..c.mats[now].n : o.x[i][j] = 1000*op.x[i][j]))
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE IF Has(o,"exc") THEN {"exception"} ELSE
  (* what a singular matrix that was not refused leaves behind is of no use *)
  LET last(k) == {j \in 1..k : c.ops[j].op \in {"init","clear"}}
      murky(k) == last(k) # {} /\ LET j == CHOOSE x \in last(k) : \A y \in last(k) : x >= y IN c.ops[j].op = "init" /\ Acceptable(c.mats[c.ops[j].m]) /\ Singular(c.mats[c.ops[j].m]) /\ o.r[j].refused = 0 IN
  UNION {IF c.ops[k].op \in {"solve","about"} /\ murky(k) THEN {} ELSE VOp(c,k,o.r[k]) : k \in DOMAIN c.ops}
TJudge == Report(V(Recs[pos]))
=============================================================================
