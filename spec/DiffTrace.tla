------------------------------ MODULE DiffTrace ------------------------------
EXTENDS Diff, Judge
Exact == 5        \* millionths (of a pixel, for pixels)
Fitted == 3000
(* too few pixels in the circle to fit anything *)
Ref(r) == r.c.refused = 1 \/ (r.c.c.kind = "diff" /\ r.c.x.source = "fit" /\ r.o.inside < 3)
VDiff(c,o,x) ==
   Bad("shape", o.shape = x.shape /\ o.Rshape = (IF Len(c.models) = 2 THEN <<4,3>> ELSE <<Len(c.models)-1,4,3>>) /\ o.diffshape = (IF Len(c.models) = 2 THEN x.shape \o <<2>> ELSE 0))
   \cup (IF ~Has(o,"len") THEN {} ELSE
     Bad("grid", o.grid <= Exact)
     \cup Bad("transformation", IF x.source # "fit" THEN o.R <= Exact /\ o.t <= Exact ELSE c.dist = <<>> => o.t = 0)
     \cup Bad("difference", o.diff <= Exact)
     \cup Bad("length_of_difference", o.len <= Exact)
     \cup (IF x.source = "fit" THEN Bad("fit_leaves_a_difference", o.left <= 300000) \cup Bad("fitted_rotation", o.inside >= 30 /\ (c.dist = <<>> \/ Len(c.dist) > 1) => o.R <= Fitted) ELSE {}))
   \cup Bad("uncertainties_missing_silently", c.unc = "missing" /\ x.source = "fit" => o.warned = 1)
VFit(c,o,x) == Bad("shape", o.Rshape = <<4,3>>) \cup Bad("not_finite", o.finite = 1)
   \cup (IF o.Rshape # <<4,3>> THEN {} ELSE Bad("fitted_rotation", o.R <= Fitted) \cup Bad("fitted_translation", IF c.inf = 1 THEN o.t0 = 1 ELSE o.t <= 10*Fitted))
VPair(c,o,x) == Bad("shape", o.shape = x.shape /\ o.diffshape = x.shape \o <<2>>)
   \cup (IF ~Has(o,"len") THEN {} ELSE Bad("grid", o.grid <= Exact) \cup Bad("difference", o.diff <= Exact) \cup Bad("length_of_difference", o.len <= Exact) \cup Bad("reprojection_function", o.func <= Exact))
VRes(c,o,x) == Bad("shape", o.shapeok = 1) \cup (IF Has(o,"err") THEN Bad("resolution", o.err <= 100) ELSE {})
(* the fit is weighted by the squared inverse of the product of the uncertainties: no other transformation fits better *)
VUnc(c,o,x) == Bad("shape", o.shape = x.shape) \cup Bad("uncertainties_unused", o.warned = 0) \cup (IF Has(o,"cost") THEN Bad("weights_of_fit", o.cost <= 1020) ELSE {})
V(r) == LET o == r.o c == r.c.c x == r.c.x IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Has(o,"exc") THEN {"exception"} ELSE
  IF Ref(r) THEN Bad("impossible_question_answered", Has(o,"fail")) ELSE
  IF Has(o,"fail") THEN {"failed"} ELSE
  Bad("arguments_modified", o.pure = 1)
  \cup (CASE c.kind = "diff" -> VDiff(c,o,x) [] c.kind = "fit" -> VFit(c,o,x) [] c.kind = "pair" -> VPair(c,o,x) [] c.kind = "unc" -> VUnc(c,o,x) [] OTHER -> VRes(c,o,x))
TJudge == Report(V(Recs[pos]))
=============================================================================
