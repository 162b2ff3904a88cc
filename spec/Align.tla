-------------------------------- MODULE Align --------------------------------
(* Aligning two sets of points or of vectors, and other small problems with an exact
   answer. A set of points is a sequence of integer vectors; the weight of a point
   says how many copies of it there are. *)
EXTENDS Pose
RECURSIVE SumTo(_,_)
SumTo(f,k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f,k-1)
Total(f) == SumTo(f,Len(f))
Weight(c) == Total(c.w)
SumV(c,p) == [i \in 1..3 |-> Total([k \in DOMAIN p |-> c.w[k]*p[k][i]])]
(* W^2 times the covariance of the two clouds, or sum( w a b' ) for vectors *)
Moment(c,a,b) == LET m == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> Total([k \in DOMAIN a |-> c.w[k]*a[k][i]*b[k][j]])]])
                     sa == TLCEval(SumV(c,a)) sb == TLCEval(SumV(c,b)) W == Weight(c) IN
   IF c.kind = "vectors" THEN m ELSE [i \in 1..3 |-> [j \in 1..3 |-> W*m[i][j] - sa[i]*sb[j]]]
Pairs == {<<1,2>>,<<1,3>>,<<2,3>>}
RankAbove1(m) == \E r \in Pairs, s \in Pairs : m[r[1]][s[1]]*m[r[2]][s[2]] # m[r[1]][s[2]]*m[r[2]][s[1]]
(* a motion does not change the rank *)
Singular(c,a,b) == ~RankAbove1(TLCEval(IF c.exact = 1 THEN Moment(c,b,b) ELSE Moment(c,a,b)))
MaxM(m) == LET s == {Abs(m[i][j]) : i \in 1..3, j \in 1..3} IN CHOOSE x \in s : \A y \in s : x >= y
Vecs == {v \in {<<x,y,z>> : x \in -2..2, y \in -2..2, z \in -2..2} : v[1] > 0 \/ (v[1] = 0 /\ v[2] > 0) \/ (v[1] = 0 /\ v[2] = 0 /\ v[3] > 0)}
(* the rotation R (times S) maximizes trace(R'M) iff B = R'M is symmetric, and trace(B) I - B has no negative direction *)
Best(R,S,m,tol) == LET k == IF S > 1000 THEN 100 ELSE 1 IN
  (* (bound to sets of one element: computed once) *)
  \E B \in {MM(Tr(R),m)} : \E C \in {[i \in 1..3 |-> [j \in 1..3 |-> B[i][j] \div k]]} : \E t \in {C[1][1]+C[2][2]+C[3][3]} :
   /\ \A p \in Pairs : Abs(B[p[1]][p[2]] - B[p[2]][p[1]]) <= tol
   /\ \A v \in Vecs : LET q(i) == C[i][1]*v[1]+C[i][2]*v[2]+C[i][3]*v[3] IN
        v[1]*q(1)+v[2]*q(2)+v[3]*q(3) <= t*(v[1]*v[1]+v[2]*v[2]+v[3]*v[3]) + 48*((tol \div k) + (IF k = 1 THEN 0 ELSE 2))
(* without the digits that do not matter *)
Reduced(m) == LET k == 1 + (MaxM(m) \div 16000) IN [i \in 1..3 |-> [j \in 1..3 |-> m[i][j] \div k]]
Rotation(R,S) == LET G == MM(R,Tr(R)) IN
   /\ \A i \in 1..3, j \in 1..3 : Abs(G[i][j] - (IF i = j THEN S*S ELSE 0)) <= 3*S
   /\ LET r == [i \in 1..3 |-> [j \in 1..3 |-> R[i][j] \div 100]] IN Det(r) > 0
(* the best alignment of copies that are exact is the motion itself *)
Is(R,S,q) == LET n == Norm2(q) m == Mat(q) IN \A i \in 1..3, j \in 1..3 : Abs(R[i][j]*n - S*m[i][j]) <= n
(* ---- symmetric matrices of known eigenvalues ---- *)
Orth(c) == CASE c.n = 1 -> <<<<1>>>>
   [] c.n = 2 -> LET t == <<<<3,4>>,<<5,12>>,<<-4,3>>,<<1,0>>,<<0,1>>,<<15,8>>>>[c.g] IN <<<<t[1],-t[2]>>,<<t[2],t[1]>>>>
   [] c.n = 3 -> Mat(c.q)
   [] c.n = 4 -> LET a == c.q[1] b == c.q[2] d == c.q[3] e == c.q[4] IN <<<<a,-b,-d,-e>>,<<b,a,-e,d>>,<<d,e,a,-b>>,<<e,-d,b,a>>>>
(* Orth Orth' = Scale I *)
Scale(c) == LET o == Orth(c) IN Total([k \in 1..c.n |-> o[1][k]*o[1][k]])
Symm(c) == LET o == TLCEval(Orth(c)) IN [i \in 1..c.n |-> [j \in 1..c.n |-> Total([k \in 1..c.n |-> o[i][k]*c.l[k]*o[j][k]])]]
Eig(c) == [k \in 1..c.n |-> Scale(c)*c.l[k]]
MaxOf(s) == CHOOSE x \in s : \A y \in s : x >= y
=============================================================================
