----------------------------- MODULE StereoTrace -----------------------------
EXTENDS Stereo, Judge
Near(a,b,e) == Abs(a-b) <= e
SystemV(c,o) ==
  IF ~Valid(c) THEN Bad("invalid_arguments_accepted", o.ok = 0)
  ELSE IF c.auto = 1 /\ Closest(c,o.have) < 5 THEN {}
  ELSE IF ~Sees(c,o.have) THEN Bad("view_along_the_baseline_accepted", o.ok = 0)
  ELSE IF o.ok = 0 THEN {"failed"} ELSE
  LET R == RectPose(c) n == Norm2(R.q) az == CenterAz(c,o.have) IN
    Bad("orientation", o.R0 = Mat(R.q) /\ o.R1 = Mat(R.q))
  \cup Bad("position", o.t0 = [i \in 1..3 |-> n*R.t[i]] /\ o.t1 = [i \in 1..3 |-> n*(R.t[i] - (IF i = 1 THEN R.d*Baseline(c) ELSE 0))])
  \cup Bad("baseline", o.baseline = Baseline(c))
  \cup Bad("same_models", o.same = 1)
  \cup Bad("lens_model", o.lens = c.rect)
  \cup Bad("center", Near(o.center[1],az,3) /\ Near(o.center[2],1000*c.el0,3))
  \cup Bad("metadata", Near(o.meta[1],1000*c.azfov,1) /\ Near(o.meta[2],1000*c.elfov,1) /\ Near(o.meta[3],az,3) /\ Near(o.meta[4],1000*c.el0,1) /\ o.metappd = 1)
  \cup (IF c.ppdaz < 0 THEN {} ELSE IF c.rect = "LENSMODEL_LATLON" THEN Bad("azimuth_size", o.size[1] = Quarter(c.azfov*c.ppdaz)) ELSE Bad("azimuth_resolution", Near(o.ppd[1],2500*c.ppdaz,2)))
  \cup (IF c.ppdel < 0 THEN {} ELSE IF c.rect = "LENSMODEL_LATLON" THEN Bad("elevation_size", o.size[2] = Quarter(c.elfov*c.ppdel)) ELSE Bad("elevation_resolution", Near(o.ppd[2],2500*c.ppdel,2)))
  \cup Bad("resolution_of_the_camera", o.res = <<1,1>>)
  \cup Bad("field_of_view", o.fov = <<1,1>>)
  \cup Bad("rectified_resolution", o.rr = 1 \/ o.size[1] > 1000000)
DenseV(c,o) ==
    Bad("arguments_modified", o.pure = 1) \cup Bad("shape", o.shape = 1)
  \cup Bad("not_shown", \A i \in 1..3 : \A j \in 1..4 : ~Shown(c,o.D[i][j]) => o.p[i][j] = 0)
  \cup Bad("shown", \A i \in 1..3 : \A j \in 1..4 : Shown(c,o.D[i][j]) =>
        o.p[i][j] = (IF c.rect = "LENSMODEL_PINHOLE" THEN PinNum(c,i-1,j-1) ELSE <<i-1,j-1,o.D[i][j]>>))
SparseV(c,o) ==
    Bad("point", o.p = [i \in DOMAIN c.pts |-> IF i = 1 /\ c.special # "none" THEN <<0,0,0>> ELSE c.pts[i]])
  \cup Bad("range", o.r2 = [i \in DOMAIN c.pts |-> IF i = 1 /\ c.special # "none" THEN 0 ELSE c.pts[i][1]*c.pts[i][1] + c.pts[i][2]*c.pts[i][2] + c.pts[i][3]*c.pts[i][3]])
  \cup Bad("arguments_modified", o.pure = 1) \cup Bad("shape", o.shape = 1)
MapsV(c,o) == Bad("shape", o.shape = 1) \cup Bad("maps", o.off = 0) \cup Bad("rows", o.rows = 1) \cup Bad("points", o.p = c.pts)
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Has(o,"exc") THEN {"exception"} ELSE
  CASE c.kind = "system" -> SystemV(c,o)
    [] c.kind = "dense" -> DenseV(c,o)
    [] c.kind = "sparse" -> SparseV(c,o)
    [] c.kind = "maps" -> MapsV(c,o)
    [] OTHER -> Bad("accepted", o.rejected = 1)
TJudge == Report(V(Recs[pos]))
=============================================================================
