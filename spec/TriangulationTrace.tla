-------------------------- MODULE TriangulationTrace --------------------------
EXTENDS Triangulation, Judge
Zeros == <<0,0,0>>
Front0(c) == c.v0[3] > 0 /\ MV(Tr(Mat(Gens[c.g].q)),c.v1)[3] > 0
Always == {"geometric","leecivera_l1","leecivera_linf","leecivera_mid2","leecivera_wmid2"}
Forms(o) == Bad("arguments_modified", o.pure = <<>>) \cup Bad("output_array", o.out = <<>>) \cup Bad("broadcast", o.bcast = <<>>)
       \cup Bad("forms_of_the_arguments", o.forms = <<>>) \cup Bad("derivatives", o.grad = <<>>) \cup Bad("wrong_arguments_accepted", o.errors = <<>>)
Near(a,b,e) == Abs(a-b) <= e
PlusM(J) == [i \in DOMAIN J |-> [j \in DOMAIN J[i] |-> Abs(J[i][j]) + 1]]      \* the derivatives were rounded
AbsM(J) == [i \in DOMAIN J |-> [j \in DOMAIN J[i] |-> Abs(J[i][j])]]
PairV(c,o) ==
     Bad("point", \A k \in DOMAIN o.p : o.p[k] = c.p)
  \cup Bad("returns", o.returns = Returns(c.cal,c.obs))
  \cup Bad("shapes", o.shapes = 1)
  \cup Bad("zero_noise", o.zeros = 1)
  \cup (IF c.obs # "one" \/ o.J = <<>> \/ (c.method = 1 /\ N2(c.p) = N2([i \in 1..3 |-> c.p[i] - c.t[i]])) THEN {} ELSE      \* l1 has no derivative where both rays are as long
       
        LET e == Propagate(o.J,VarQ(c.s,c.r2)) a == Propagate(AbsM(o.J),VarQ(c.s,c.r2)) b == Propagate(PlusM(o.J),VarQ(c.s,c.r2)) IN
        Bad("observation_variance", \A i \in 1..3 : \A j \in 1..3 : Near(o.var[i][j],e[i][j],2000 + (b[i][j] - a[i][j]) + a[i][j] \div 100)))
  \cup Bad("joint_variance", o.joint = 1)
  \cup Bad("arguments_modified", o.pure = 1)
  \cup Bad("negative_noise_accepted", o.neg = 1)
  \cup (IF c.tool = 0 THEN {} ELSE Bad("tool", o.tool = c.p))
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Has(o,"exc") THEN {"exception"} ELSE
  CASE c.kind = "meet" ->
         LET e == MeetOut(c) IN
           UNION { Bad("point_" \o k, o.m[k] = e.m) : k \in Always }
         \cup (IF Front0(c) /\ ~(Parallel(c.v0,c.v1) /\ Parallel(c.v0,c.t)) THEN Bad("point_lindstrom", o.m["lindstrom"] = e.m) ELSE {})
         \cup (IF e.m # Zeros THEN Bad("error_of_rays_that_meet", o.err = 0) ELSE {})
         \cup Forms(o)
    [] c.kind = "skew" ->
           Bad("point_geometric", o.geo = Geometric(c).m)
         \cup Bad("point_leecivera_l1", o.l1 = InPlane(c,L1N(c)).m)
         \cup (IF c.pyth = 1 THEN Bad("point_leecivera_linf", o.inf = InPlane(c,InfN(c)).m) ELSE {})
         \cup (IF Convergent(c) THEN Bad("point_leecivera_mid2", o.mid2 = Mid2Eq(c)) \cup Bad("point_leecivera_wmid2", o.wmid2 = WMid2Eq(c)) \cup Bad("error_of_rays", o.err = 1)
               ELSE Bad("divergent_rays_mid2", o.mid2 = <<>>) \cup Bad("divergent_rays_wmid2", o.wmid2 = <<>>))
         \cup Forms(o)
    [] OTHER -> PairV(c,o)
TJudge == Report(V(Recs[pos]))
=============================================================================
