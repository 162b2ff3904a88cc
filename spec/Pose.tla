-------------------------------- MODULE Pose --------------------------------
(* Rigid transformations of space, exactly: a rotation is an integer quaternion up
   to scale, a translation is a rational vector t/d. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, Abs(a) % Abs(b))
Sgn(x) == IF x < 0 THEN -1 ELSE 1
DivX(x,g) == Sgn(x) * (Abs(x) \div g)          \* exact division

Norm2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
FirstNZ(q) == IF q[1] # 0 THEN q[1] ELSE IF q[2] # 0 THEN q[2] ELSE IF q[3] # 0 THEN q[3] ELSE q[4]
CanonQ(q) == LET g == Gcd(Gcd(q[1],q[2]),Gcd(q[3],q[4])) * Sgn(FirstNZ(q)) IN
             [i \in 1..4 |-> Sgn(g)*DivX(q[i],Abs(g))]
MulQ(p,q) == << p[1]*q[1]-p[2]*q[2]-p[3]*q[3]-p[4]*q[4],
                p[1]*q[2]+p[2]*q[1]+p[3]*q[4]-p[4]*q[3],
                p[1]*q[3]-p[2]*q[4]+p[3]*q[1]+p[4]*q[2],
                p[1]*q[4]+p[2]*q[3]-p[3]*q[2]+p[4]*q[1] >>
InvQ(q) == <<q[1],-q[2],-q[3],-q[4]>>
(* the rotation matrix is Mat(q)/Norm2(q) *)
Mat(q) == LET a == q[1] b == q[2] c == q[3] d == q[4] IN
  << <<a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)>>,
     <<2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)>>,
     <<2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d>> >>
Tr(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
MV(m,v) == [i \in 1..3 |-> m[i][1]*v[1]+m[i][2]*v[2]+m[i][3]*v[3]]
MM(a,b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1]*b[1][j]+a[i][2]*b[2][j]+a[i][3]*b[3][j]]]
Det(m) == m[1][1]*(m[2][2]*m[3][3]-m[2][3]*m[3][2]) - m[1][2]*(m[2][1]*m[3][3]-m[2][3]*m[3][1]) + m[1][3]*(m[2][1]*m[3][2]-m[2][2]*m[3][1])

ReduceV(t,d) == LET g == Gcd(Gcd(t[1],t[2]),Gcd(t[3],d)) IN [t |-> [i \in 1..3 |-> DivX(t[i],g)], d |-> d \div g]
Pose3(q,t,d) == LET r == ReduceV(t,d) IN [q |-> CanonQ(q), t |-> r.t, d |-> r.d]
Identity == [q |-> <<1,0,0,0>>, t |-> <<0,0,0>>, d |-> 1]
(* x |-> R x + t; x is the rational vector v/e; the result is a rational vector *)
TransformR(T,v,e) == LET n == Norm2(T.q) m == MV(Mat(T.q),v) IN
   ReduceV([i \in 1..3 |-> m[i]*T.d + T.t[i]*n*e], n*e*T.d)
RotateR(q,v,e) == ReduceV(MV(Mat(q),v), Norm2(q)*e)
Compose(A,B) == LET x == TransformR(A,B.t,B.d) IN Pose3(MulQ(A.q,B.q), x.t, x.d)
Invert(A) == LET x == RotateR(InvQ(A.q), [i \in 1..3 |-> -A.t[i]], A.d) IN Pose3(InvQ(A.q), x.t, x.d)
Inv(f,A) == IF f = 1 THEN Invert(A) ELSE A
TransformInvR(A,v,e) == LET m == MV(Tr(Mat(A.q)),[i \in 1..3 |-> A.d*v[i] - e*A.t[i]]) IN ReduceV(m, Norm2(A.q)*e*A.d)

(* poses are combined by a sequence of operations *)
Gens == << Identity,
  [q |-> <<1,1,0,0>>,  t |-> <<1,-2,3>>,  d |-> 1],      \* 90 degrees
  [q |-> <<0,0,1,0>>,  t |-> <<4,0,-1>>,  d |-> 1],      \* 180 degrees
  [q |-> <<1,1,1,1>>,  t |-> <<0,0,0>>,   d |-> 1],      \* 120 degrees
  [q |-> <<1,2,3,4>>,  t |-> <<-3,5,2>>,  d |-> 1],
  [q |-> <<3,-1,0,2>>, t |-> <<7,1,0>>,   d |-> 2],
  [q |-> <<20,1,0,-1>>,t |-> <<1,1,1>>,   d |-> 1],      \* small rotation
  [q |-> <<1,0,12,2>>, t |-> <<-1,0,2>>,  d |-> 1],      \* almost 180 degrees
  [q |-> <<1,0,0,0>>,  t |-> <<5,-6,7>>,  d |-> 1],
  [q |-> <<1,-1,2,0>>, t |-> <<2,2,-9>>,  d |-> 3] >>
NGens == Len(Gens)
(* an operation: <<kind, i0, i1, g>>; kind 1: P o G; 2: G o P; 3: invert; 4: G o P o H *)
Step(P,o) == LET G == Gens[o[4]] IN
  CASE o[1] = 1 -> Compose(Inv(o[2],P),Inv(o[3],G))
    [] o[1] = 2 -> Compose(Inv(o[2],G),Inv(o[3],P))
    [] o[1] = 3 -> Invert(P)
    [] o[1] = 4 -> Compose(Compose(G,P),Gens[1 + (o[4] % NGens)])
RECURSIVE Run(_,_)
Run(P,ops) == IF ops = <<>> THEN P ELSE Run(Step(P,Head(ops)),Tail(ops))
Ops == { <<k,a,b,g>> : k \in {1,2}, a \in {0,1}, b \in {0,1}, g \in 1..NGens } \cup { <<3,0,0,1>> } \cup { <<4,0,0,g>> : g \in 1..NGens }
Size(P) == Norm2(P.q)*P.d
(* bounds the numbers of a step, so that they fit in the integers of TLC *)
Sat(x,y) == IF x > 1000000000 \div y THEN 1000000000 ELSE x*y
Fits(P,o,max) == Sat(Sat(Sat(Sat(Size(P),Size(Gens[o[4]])), IF o[1] = 4 THEN Size(Gens[1 + (o[4] % NGens)]) ELSE 1),
                     IF o[1] = 3 \/ (o[1] = 1 /\ o[2] = 1) \/ (o[1] = 2 /\ o[3] = 1) THEN Norm2(P.q) ELSE 1),
                     IF (o[1] = 1 /\ o[3] = 1) \/ (o[1] = 2 /\ o[2] = 1) THEN Norm2(Gens[o[4]].q) ELSE 1) <= max
=============================================================================
