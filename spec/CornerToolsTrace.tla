-------------------------- MODULE CornerToolsTrace --------------------------
EXTENDS CornerTools, Judge
V(r) == LET o == r.o  c == r.c.a
            ok == CASE c.tool = "cull" -> Need(c) [] c.tool = "rotate" -> RotOk(c) [] OTHER -> RandOk(c) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("bad_call_accepted", ~ok => o.rc # 0)
  \cup Bad("good_call_rejected", ok => o.rc = 0)
  \cup (IF ~ok \/ o.rc # 0 THEN {} ELSE
       Bad("legend", o.legend = 1)
  \cup (CASE c.tool = "cull" -> Bad("culled_points", o.out = Cull(c))
          [] c.tool = "rotate" -> Bad("rotated_corners", SeqSet(o.out) = Rotate(c) /\ Len(o.out) = Len(c.imgs))
          [] OTHER -> Bad("kept_images", SeqSet(o.out) \subseteq Choice(c)) \cup Bad("number_of_kept_images", Len(o.out) = NKeep(c) /\ Cardinality(SeqSet(o.out)) = Len(o.out))))
TJudge == Report(V(Recs[pos]))
=============================================================================
