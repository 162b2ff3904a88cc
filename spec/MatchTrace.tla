------------------------------ MODULE MatchTrace ------------------------------
EXTENDS Match, Judge
(* o.z: the scores as observed, rows of the positions; o.z9: the 9 around the best, relative to it, 10000 at most; o.q: thousandths of pixels *)
Near(c,a,b) == IF Normed(c) THEN Abs(a-b) <= 6 ELSE Abs(a-b) <= (IF c.method = "ccoeff" THEN 20 ELSE 2)
VScores(c,o,z) == Bad("size_of_scores", Len(o.z) = Hi(c)[2]-Lo(c)[2]+1 /\ \A k \in DOMAIN o.z : Len(o.z[k]) = Hi(c)[1]-Lo(c)[1]+1)
   \cup (IF Len(o.z) = Hi(c)[2]-Lo(c)[2]+1 /\ Len(o.z[1]) = Hi(c)[1]-Lo(c)[1]+1
         THEN Bad("scores", \A u \in DOMAIN z : z[u] = Unknown \/ Near(c,z[u],o.z[u[2]-Lo(c)[2]+1][u[1]-Lo(c)[1]+1])) ELSE {})
VBest(c,o,z) == IF ~Clear(c,z) THEN {} ELSE
   LET u == CHOOSE v \in Best(c,z) : TRUE IN
   IF Edge(c,u) THEN Bad("match_at_the_edge_of_the_search", o.none = 1)
   ELSE LET f == TLCEval(Fit(o.z9))
            \* where the best match is between pixels
            d == [i \in {1,2} |-> o.q[i] - 125*Estimate(c)[i] - 1000*(u[i]-TMin(c)[i])] IN
     IF ~Definite(c,f) THEN {} ELSE
     IF o.none = 1 THEN {"no_match"} ELSE
     \* (far away only if the paraboloid is flat)
     (IF Abs(d[1]) > 5000 \/ Abs(d[2]) > 5000 THEN Bad("matching_pixel", Abs(f.x) + Abs(f.y) > Abs(f.xx) \/ Abs(f.x) + Abs(f.y) > Abs(f.yy))
      ELSE Bad("matching_pixel", AtRest([k \in DOMAIN f |-> f[k] \div 10],d[1],d[2],60000 + 12*((Abs(f.xx) + Abs(f.yy) + Abs(f.xy)) \div 10)))) \cup Bad("subpixel_optimum", o.top = 1)
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE IF Has(o,"exc") THEN {"exception"} ELSE
  Bad("arguments_modified", o.pure = 1) \cup
  (CASE Kind(c) = "refused" -> Bad("impossible_match_not_refused", o.refused = 1)
     [] Kind(c) = "unknown" -> {}
     [] Kind(c) = "match" -> IF o.refused = 1 THEN {"possible_match_refused"}
          ELSE Bad("not_a_number", o.finite = 1) \cup Bad("diagnostics", o.diag = 1) \cup Bad("plot", o.plot = 1)
            \cup UNION {VScores(c,o,z) \cup VBest(c,o,z) : z \in {Scores(c)}})
TJudge == Report(V(Recs[pos]))
=============================================================================
