---------------------------- MODULE SeedingTrace ----------------------------
EXTENDS Seeding, Judge
V(r) == LET o == r.o  c == r.c.c  e == Out(c) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     Bad("unsolvable_accepted", ~Solvable(c) => o.ok = 0)
  \cup Bad("solvable_rejected", Solvable(c) => o.ok = 1)
  \cup Bad("arguments_modified", o.same = 1)
  \cup (IF o.ok = 0 \/ ~Solvable(c) THEN {} ELSE
       Bad("poses_of_cameras", o.cams = [i \in DOMAIN e.cams |-> Num(e.cams[i])])
  \cup Bad("poses_of_boards", o.frames = [i \in DOMAIN e.frames |-> Num(e.frames[i])])
  \cup Bad("intrinsics", c.api = "seed" => o.intr = [i \in 1..NCam(c) |-> <<Focal(c,i-1),Focal(c,i-1),o.sizes[i][1]-1,o.sizes[i][2]-1>>]))
TJudge == Report(V(Recs[pos]))
=============================================================================
