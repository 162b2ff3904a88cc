------------------------------ MODULE AlignTrace ------------------------------
EXTENDS Align, Judge
S == 10000
Big1(x) == IF x < 1 THEN 1 ELSE x
Zero(R) == \A i \in 1..3, j \in 1..3 : R[i][j] = 0
VSlice(c,x,o) == LET m0 == Moment(c,x.a,x.b) m == Reduced(m0) W == Weight(c) IN
  IF Singular(c,x.a,x.b) THEN Bad("singular_not_reported", o.zero = 1)
  ELSE IF o.zero = 1 THEN {"good_input_reported_singular"}
  ELSE Bad("not_a_rotation", Rotation(o.R,S))
    \cup Bad("not_the_best_rotation", Best(o.R,S,m,4*MaxM(m) + 10 + (IF m = m0 THEN 0 ELSE 4*S)))
    \cup Bad("not_the_motion", c.exact = 1 => o.exactR = 1 /\ Is(o.R,S,c.q))
    \cup (IF c.kind = "vectors" THEN {} ELSE
          LET sa == SumV(c,x.a) sb == [i \in 1..3 |-> c.u*SumV(c,x.b)[i]] Rb == MV(o.R,sb) IN
          Bad("not_the_best_translation", \A i \in 1..3 : Abs(W*o.t[i] - (S*sa[i] - Rb[i])) <= W + 2*(Abs(sb[1])+Abs(sb[2])+Abs(sb[3])) + 10))
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE IF Has(o,"exc") THEN {"exception"} ELSE
  IF Has(o,"fail") THEN {"failed"} ELSE
  Bad("arguments_modified", o.pure = 1) \cup
  Bad("shape", o.shape = 1) \cup
  (IF o.shape = 0 THEN {} ELSE
   CASE c.kind \in {"points","vectors"} -> UNION {VSlice(c,c.s[k],o.r[k]) : k \in DOMAIN c.s}
     [] c.kind = "toz" -> UNION {LET R == o.r[k] v == c.v[k] z == R[3] IN
          Bad("not_a_rotation", Rotation(R,S))
          \cup Bad("vector_not_mapped_to_z", /\ \A p \in Pairs : Abs(z[p[1]]*v[p[2]] - z[p[2]]*v[p[1]]) <= Abs(v[1])+Abs(v[2])+Abs(v[3])
                                             /\ z[1]*v[1]+z[2]*v[2]+z[3]*v[3] > 0) : k \in DOMAIN c.v}
     [] c.kind = "eig" -> UNION {LET x == c.m[k] e == Eig(x.d) D == 1..x.d.n l == o.r[k].l v == o.r[k].v IN
          Bad("not_ascending", \A i \in D \ {1} : l[i-1] <= l[i] + 2)
          \cup Bad("eigenvalues", \A i \in D : Cardinality({j \in D : e[j] = e[i]}) = Cardinality({j \in D : Abs(l[j] - 1000*e[i]) <= 20}))
          (* column j is the vector of eigenvalue j *)
          \cup Bad("eigenvectors", \A i \in D, j \in D : Abs(Total([y \in D |-> x.M[i][y]*v[y][j]]) - ((l[j] + 500) \div 1000)*v[i][j]) <= 2*Total([y \in D |-> Abs(x.M[i][y])]) + Abs(l[j] \div 1000) + 10)
          (* those of a double eigenvalue may be complex *)
          \cup Bad("eigenvectors_not_normal", \A j \in D : Cardinality({i \in D : Abs(l[i] - l[j]) <= 20}) = 1 => Abs(Total([y \in D |-> v[y][j]*v[y][j]]) - S*S) <= 5*S) : k \in DOMAIN c.m}
     [] c.kind = "worst" -> UNION {LET e == MaxOf({Eig(c.m[k].d)[i] : i \in 1..c.m[k].d.n}) s == o.r[k] IN
          (* in thousandths *)
          Bad("worst_direction", s >= 0 /\ \E root \in 0..400 : root*root = e /\ Abs(s - 1000*root) <= 1) : k \in DOMAIN c.m}
     [] c.kind = "quat" -> UNION {LET q == c.q[k] x == o.r[k].q IN
          Bad("quaternion", /\ \A i \in 1..4, j \in 1..4 : Abs(x[i]*q[j] - x[j]*q[i]) <= 2*(Abs(q[i])+Abs(q[j]))
                            /\ Abs(Total([i \in 1..4 |-> x[i]*x[i]]) - S*S) <= 4*S)
          \cup Bad("rotation_of_quaternion", Is(o.r[k].R,S,q) /\ Is(o.r[k].back,S,q)) : k \in DOMAIN c.q})
TJudge == Report(V(Recs[pos]))
=============================================================================
