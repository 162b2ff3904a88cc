-------------------------- MODULE UncertaintyTrace --------------------------
EXTENDS Uncertainty, Judge
Tol == 1000     \* millionths
V(r) == LET o == r.o c == r.c.c u == r.c.u IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Has(o,"exc") THEN {"exception"} ELSE
  IF Refused(c,u) \/ o.solvable = "no" THEN Bad("unanswerable_question_answered", Has(o,"fail") \/ o.finite = 0)
  ELSE IF Has(o,"fail") THEN {"failed"}
  ELSE IF o.finite = 0 THEN {"not_finite"}
  ELSE IF o.shape = 0 THEN {"shape"}
  ELSE Bad("motion_of_the_coordinate_system", o.K <= Tol)
    \cup (IF u.method = "mean" THEN {} ELSE Bad("motion_reported_by_other_variables", SeqSet(o.Kcols) \subseteq KCols(c,u)))
    \cup Bad("covariance", o.cov <= Tol)
    \cup Bad("stdev", o.what <= 10)
    \cup Bad("not_a_covariance", o.psd = 1)
    \cup Bad("points_or_noise_levels_not_independent", o.sep <= 100)
    \cup Bad("distance_at_infinity_matters", o.far <= 100)
    \cup Bad("arguments_modified", o.pure = 1)
TJudge == Report(V(Recs[pos]))
=============================================================================
