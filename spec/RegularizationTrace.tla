------------------------- MODULE RegularizationTrace -------------------------
EXTENDS Regularization, Judge
V(r) == LET o == r.o  t == Terms(r.c.c) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("number_of_terms", o.n = Len(t) /\ o.nf = Len(t))
  \cup Bad("where_they_are", o.at = (IF t = <<>> THEN -1 ELSE o.total - Len(t)))
  \cup Bad("values_of_the_terms", Len(o.x) = Len(t) => o.x = [k \in DOMAIN t |-> t[k][1]])
  \cup Bad("not_repeatable", o.again = 1)
  \cup Bad("derivatives_of_the_terms", o.jac = 1)
  \cup Bad("arguments_modified", o.same = 1)
TJudge == Report(V(Recs[pos]))
=============================================================================
