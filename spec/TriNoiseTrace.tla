--------------------------- MODULE TriNoiseTrace ---------------------------
EXTENDS TriNoise, Judge
Tol == 3000     \* millionths
Pos(s,k) == CHOOSE i \in DOMAIN s : s[i] = k
V(r) == LET o == r.o c == r.c.c u == r.c.u IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Has(o,"exc") THEN {"exception"} ELSE
  IF Refused(c,u) THEN Bad("impossible_question_answered", Has(o,"fail") \/ o.finite = 0)
  ELSE IF Has(o,"fail") THEN Bad("failed", CalNoise(u) /\ o.solvable = "no")
  ELSE IF CalNoise(u) /\ o.solvable = "no" THEN Bad("unsolvable_problem_answered", o.finite = 0)
  ELSE IF o.finite = 0 THEN {"not_finite"}
  ELSE Bad("what_is_returned", o.n = Len(Returned(u)) /\ o.shapes = 1)
    \cup Bad("arguments_modified", o.pure = 1)
    \cup Bad("point", o.p <= 10)
    \cup (IF o.n # Len(Returned(u)) \/ o.shapes = 0 THEN {} ELSE
      UNION {LET x == o.v[Pos(Returned(u),k)] IN
             IF Zero(u,k) \/ (k = "cal" /\ \A p \in SeqRange(u.pairs) : Exact(c,u,p)) THEN Bad("noise_from_nowhere", x.zero = 1)
             ELSE Bad(k, x.err <= Tol) \cup Bad("not_a_covariance", x.psd = 1)
             : k \in SeqRange(Returned(u))}
      \cup (IF CalNoise(u) /\ u.obs # "none" THEN Bad("joint_is_not_the_sum", o.sum = 1) ELSE {}))
    \cup (IF CalNoise(u) THEN Bad("columns", \A i \in DOMAIN o.cols : SeqSet(o.cols[i]) \subseteq PairCols(c,u,u.pairs[i])) ELSE {})
TJudge == Report(V(Recs[pos]))
=============================================================================
