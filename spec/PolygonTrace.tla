----------------------------- MODULE PolygonTrace -----------------------------
EXTENDS Polygon, Judge
V(r) == LET o == r.o c == r.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  CASE c.api = "diff" ->
       \* every point of the difference is in one piece; no other point is in any
       LET Q == o.pts free == {k \in DOMAIN Q : o.near[k] = 0 /\ ~OnBoundary(c.a,Q[k]) /\ ~OnBoundary(c.b,Q[k])} IN
         Bad("points_of_the_difference", \A k \in free : o.count[k] = (IF InDiff(c.a,c.b,Q[k]) THEN 1 ELSE 0))
       \cup Bad("pieces", o.pieces = 1)
       \cup Bad("arguments_modified", o.same = 1)
    [] c.api = "within" ->
       IF c.none = 1 THEN Bad("no_region", o.mask = "none") ELSE
         Bad("shape", o.shape = 1)
       \cup Bad("points_within", \A k \in DOMAIN o.pts : ((c.a # <<>> /\ OnBoundary(c.a,o.pts[k])) \/ o.mask[k] = (IF c.a # <<>> /\ Inside(c.a,o.pts[k]) THEN 1 ELSE 0)))
       \cup Bad("arguments_modified", o.same = 1)
       \cup Bad("tool", o.ran = 0 \/ o.tool = o.mask)
    [] OTHER ->
       IF c.none = 1 THEN Bad("no_contour", o.out = "none") ELSE
         Bad("contour", o.out = Close(c.a) \/ (c.closed = 1 /\ c.a # <<>> /\ o.out = Append(c.a,c.a[1])))
       \cup Bad("shape", o.shape = 1) \cup Bad("returned_as_is", o.asis = 1) \cup Bad("arguments_modified", o.same = 1)
TJudge == Report(V(Recs[pos]))
=============================================================================
