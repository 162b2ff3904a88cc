--------------------------- MODULE ProjectionTrace ---------------------------
(* Judges observed projections against Projection. Pixels are reported scaled by the
   denominators of the exact result. *)
EXTENDS Projection, Judge
BehindOK(m) == m \in {"STEREOGRAPHIC","SPLINED","LONLAT","LATLON","CAHVORE0","CAHVORE1","CAHVORE5","CAHVOREG"}
Mild(cam,v) == cam.m \notin {"OPENCV4","OPENCV5","OPENCV8","OPENCV12","CAHVOR","CAHVORX","SPLINED"} \/
               (cam.m \in {"OPENCV4","OPENCV5","OPENCV8","OPENCV12","CAHVOR"} /\ v[1]*v[1]+v[2]*v[2] <= v[3]*v[3])
FNeg(v) == [i \in 1..3 |-> -v[i]]
V(r) == LET cam == r.c.cam  v == r.c.v  o == r.o  q == Project(cam,v) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
     (IF cam.m = "CAHVOREG" THEN {} ELSE UNION { Bad("project", o.q[i] = <<q[1][1],q[2][1]>>) : i \in 1..Len(o.q) })
  \cup Bad("scale_invariance", o.sc = 1)
  \cup Bad("project_function", \A i \in 1..Len(o.pf) : o.pf[i] = <<q[1][1],q[2][1]>>)
  \cup Bad("gradient", o.grad = <<>>)
  \cup Bad("broadcasting", o.bcast = <<>>)
  \cup Bad("out", o.out = <<>>)
  \cup Bad("inputs_modified", o.pure = <<>>)
  \cup (IF cam.m = "SPLINED" THEN Bad("spline_support", LET S == SplineSupport(v,cam.sp) IN SeqSet(o.nzx) \subseteq S /\ SeqSet(o.nzy) \subseteq S) ELSE {})
  \cup Bad("unproject_inverse", o.uq = 1)
  \cup (IF Mild(cam,v) /\ Has(o,"u") THEN Bad("unproject", o.u = (IF ~BehindOK(cam.m) /\ v[3] < 0 THEN FNeg(v) ELSE v)) ELSE {})
  \cup Bad("unproject_normalize", o.un = 1)
  \cup Bad("unproject_gradient", o.ugrad = <<>>)
  \cup Bad("unproject_broadcast_out", o.ub = <<>>)
TJudge == Report(V(Recs[pos]))
=============================================================================
