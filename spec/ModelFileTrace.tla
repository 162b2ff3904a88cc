--------------------------- MODULE ModelFileTrace ---------------------------
EXTENDS ModelFile, Judge
V(r) == LET o == r.o  es == r.c.es
            p == IF r.c.good /\ es # <<>> THEN Python(es) ELSE Rej
            c == IF r.c.good /\ es # <<>> THEN C(es) ELSE Rej
            broken == ~r.c.good \/ es = <<>> IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  (IF (r.c.lay = "missingcomma" /\ Len(es) < 2) \/ r.c.lay = "noclosebracket" THEN {} ELSE
   Bad("python_accepts_or_rejects", o.py.ok = p.ok)
   \cup Bad("c_accepts_or_rejects", o.c.file.ok = c.ok /\ o.c.strz.ok = c.ok /\ o.c.strn.ok = c.ok /\ o.c.into.ok = c.ok)
   \cup (IF ~p.ok \/ ~o.py.ok THEN {} ELSE
      Bad("python_lens", o.py.lens = p.lens) \cup Bad("python_pose", o.py.pose = p.pose) \cup Bad("python_imagersize", o.py.size = p.size)
      \cup Bad("python_region", o.py.reg = p.reg) \cup Bad("python_optimization_inputs", o.py.opt = p.opt /\ o.py.ii = p.ii /\ o.py.ie = p.ie)
      \cup Bad("python_reads_a_file_object_alike", o.pyfile = 1))
   \cup (IF ~c.ok \/ ~o.c.file.ok THEN {} ELSE
      Bad("c_contents", \A w \in {o.c.file,o.c.strz,o.c.strn,o.c.into} : w.ok => w.lens = c.lens /\ w.pose = c.pose /\ w.size = c.size)
      \cup Bad("written_by_c_read_by_c", o.c.again.ok /\ o.c.again.lens = c.lens /\ o.c.again.pose = c.pose /\ o.c.again.size = c.size)
      \cup Bad("written_by_c_read_by_python", o.pyagain.ok /\ o.pyagain.lens = c.lens /\ o.pyagain.pose = c.pose /\ o.pyagain.size = c.size)))
   \cup Bad("buffer_overrun", o.c.guard = 1)
   \cup (IF broken THEN {} ELSE Bad("needed_size_reported", o.c.need = Needs(es)))
TJudge == Report(V(Recs[pos]))
=============================================================================
