----------------------------- MODULE NamesTrace -----------------------------
EXTENDS Text, Judge
V(r) == LET o == r.o  f == r.c.files IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("images_that_cannot_be_mapped_accepted", ~Mappable(f) => o.ok = 0)
  \cup Bad("images_rejected", Mappable(f) => o.ok = 1)
  \cup Bad("frame_or_camera_of_image", (o.ok = 1 /\ Mappable(f)) => SeqSet(o.m) = Mapping(f) /\ Len(o.m) = Cardinality(Mapping(f)))
  \cup Bad("arguments_modified", o.same = 1)
TJudge == Report(V(Recs[pos]))
=============================================================================
