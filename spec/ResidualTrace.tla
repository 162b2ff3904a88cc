---------------------------- MODULE ResidualTrace ----------------------------
(* Judges the observed measurement vector: each coordinate of each observation is off by the
   whole number of pixels that it was given to be off, times its weight (in eighths); outliers are 0. *)
EXTENDS Residual, Judge
X(w,e) == [k \in 1..(2*Len(w)) |-> LET m == (k+1) \div 2 IN IF Outlier(w[m]) THEN 0 ELSE w[m]*e[m][2-(k%2)]]
V(r) == LET o == r.o  p == r.c.p  e == r.c.e IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("number_of_measurements", o.n = 2*(Len(p.wb)+Len(p.wp)))
  \cup Bad("weighted_reprojection_error", o.x = X(p.wb,e.b) \o X(p.wp,e.p))
  \cup SeqSet(o.bad)
TJudge == Report(V(Recs[pos]))
=============================================================================
