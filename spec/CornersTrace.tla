---------------------------- MODULE CornersTrace ----------------------------
EXTENDS Corners, Judge
V(r) == LET o == r.o  c == r.c.a  d == Derive(c)  good == d.good IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("bad_corners_accepted", ~good => o.ok = 0)
  \cup Bad("good_corners_rejected", good => o.ok = 1)
  \cup (IF good /\ o.ok = 1 THEN LET e == Expect(d) IN
        Bad("frames_and_cameras", o.idx = e.idx)
   \cup Bad("paths", o.paths = e.paths)
   \cup Bad("observations", o.obs = e.obs) ELSE {})
  \cup Bad("cache", c.src = "detect" => o.cache = (IF good THEN "same" ELSE "none") \/ (CallOk(c) /\ ~good))
  \cup Bad("cached_result_differs", (good /\ c.src = "detect") => o.again = 1)
  \cup Bad("detector_run", o.ran = (IF c.src = "detect" /\ c.W = c.H /\ c.kind \in {"level","none"} /\ c.jobs >= 0 THEN 1 ELSE 0))
TJudge == Report(V(Recs[pos]))
=============================================================================
