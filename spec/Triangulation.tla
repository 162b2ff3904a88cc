---------------------------- MODULE Triangulation ----------------------------
(* Two rays: k0 v0 from the origin and t + k1 v1, in the coordinates of camera 0.
   All numbers are integers; the points found are rational, or satisfy equations
   between integers. *)
EXTENDS Pose
Dot(a,b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a,b) == << a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1] >>
Plus(a,b) == [i \in 1..3 |-> a[i]+b[i]]
Minus(a,b) == [i \in 1..3 |-> a[i]-b[i]]
Times(k,a) == [i \in 1..3 |-> k*a[i]]
N2(a) == Dot(a,a)
D3(a,b,c) == Dot(Cross(a,b),c)
Small(a) == LET g == Gcd(Gcd(a[1],a[2]),a[3]) IN IF g = 0 THEN a ELSE [i \in 1..3 |-> DivX(a[i],g)]
Pos(n,d) == (n > 0 /\ d > 0) \/ (n < 0 /\ d < 0)
Origin == [m |-> <<0,0,0>>, d |-> 1]
ReduceMD(m,d) == LET r == ReduceV(m,d) IN [m |-> r.t, d |-> r.d]
RECURSIVE ISqrt(_,_)
ISqrt(x,k) == IF k*k >= x THEN k ELSE ISqrt(x,k+1)
IsSquare(x) == LET k == ISqrt(x,0) IN k*k = x
(* the product of |x| and |y| fits *)
OkMul(x,y) == Abs(x) = 0 \/ Abs(y) <= 1000000000 \div Abs(x)
MaxC(a) == LET M(x,y) == IF x > y THEN x ELSE y IN M(M(Abs(a[1]),Abs(a[2])),Abs(a[3]))

(* ---- rays that meet: v0 = a p, v1 = b (p-t), a and b of any sign ---- *)
Parallel(v0,v1) == Cross(v0,v1) = <<0,0,0>>
MeetOut(c) == IF Parallel(c.v0,c.v1) \/ c.a < 0 \/ c.b < 0 THEN Origin ELSE [m |-> c.p, d |-> 1]

(* ---- rays that do not meet ---- *)
(* the middle of the shortest segment between them *)
Geometric(c) == LET v0 == c.v0 v1 == c.v1 t == c.t
     C == N2(v0)*N2(v1) - Dot(v0,v1)*Dot(v0,v1)
     k0 == N2(v1)*Dot(v0,t) - Dot(v0,v1)*Dot(v1,t)
     k1 == Dot(v0,v1)*Dot(v0,t) - N2(v0)*Dot(v1,t)
  IN IF C = 0 \/ k0 <= 0 \/ k1 <= 0 THEN Origin ELSE ReduceMD(Plus(Plus(Times(k0,v0),Times(k1,v1)),Times(C,t)),2*C)
(* both rays are moved to the plane with the normal n, that contains t. Where they then meet *)
InPlane(c,n0) == LET n == Small(n0) den == D3(c.v0,c.v1,n) k0 == D3(c.t,c.v1,n) k1 == D3(c.t,c.v0,n)
     v == Minus(Times(N2(n),c.v0),Times(Dot(c.v0,n),n))
     g == Gcd(k0,den)
  IN IF ~Pos(k0,den) \/ ~Pos(k1,den) THEN Origin ELSE ReduceMD(Times(DivX(k0,g)*Sgn(den),v),N2(n)*Abs(DivX(den,g)))
InPlaneFits(c,n0) == LET n == Small(n0) den == D3(c.v0,c.v1,n) k0 == D3(c.t,c.v1,n) IN
   /\ (n[1] # 0 \/ n[2] # 0)         \* looking forward: the plane is not perpendicular to the z axis
   /\ den # 0 /\ k0 # 0 /\ D3(c.t,c.v0,n) # 0
   /\ LET g == Gcd(k0,den) IN OkMul(DivX(den,g),N2(n)) /\ OkMul(DivX(k0,g),2*N2(n)*MaxC(c.v0)+1)
(* smallest sum of angles: only the ray that is less perpendicular to t moves *)
L1Cmp(c) == Dot(c.v0,c.t)*Dot(c.v0,c.t)*N2(c.v1) - Dot(c.v1,c.t)*Dot(c.v1,c.t)*N2(c.v0)
L1N(c) == IF L1Cmp(c) > 0 THEN Cross(c.v1,c.t) ELSE Cross(c.v0,c.t)
(* smallest maximum of the angles. The lengths of v0, v1 are integers *)
Len3(v) == ISqrt(N2(v),0)
InfN(c) == LET u0 == Times(Len3(c.v1),c.v0) u1 == Times(Len3(c.v0),c.v1) na == Cross(Plus(u0,u1),c.t) nb == Cross(Minus(u0,u1),c.t) IN
   IF N2(na) > N2(nb) THEN na ELSE nb
InfTie(c) == LET u0 == Times(Len3(c.v1),c.v0) u1 == Times(Len3(c.v0),c.v1) IN N2(Cross(Plus(u0,u1),c.t)) = N2(Cross(Minus(u0,u1),c.t))

(* Mid2: the distances along the rays are l0 = sqrt(A/C), l1 = sqrt(B/C) *)
MA(c) == N2(Cross(c.v1,c.t))
MB(c) == N2(Cross(c.v0,c.t))
MC(c) == N2(Cross(c.v0,c.v1))
(* the sign of sqrt(X) y + sqrt(Z) w *)
SgnSum(X,y,Z,w) == LET l == Sgn(y)*y*y*X r == Sgn(w)*w*w*Z IN l + r
Chi(c) == << SgnSum(MB(c),Dot(c.v0,c.v1),MC(c),Dot(c.v0,c.t)), SgnSum(MA(c),Dot(c.v0,c.v1),MC(c),-Dot(c.v1,c.t)), SgnSum(MA(c),Dot(c.v0,c.t),MB(c),-Dot(c.v1,c.t)) >>
(* the distances are right as they are: no change of sign brings the ends of the rays closer *)
Convergent(c) == \A i \in 1..3 : Chi(c)[i] > 0
Mid2Eq(c) == << MA(c), MB(c) >>                                        \* l0^2 C, l1^2 C
(* the weighted one, m = x v0 + y v1 + w t: (x/w)^2 |v0|^2 C, (y/(1-w))^2 |v1|^2 C, (w/(1-w))^2 B |v1|^2 *)
WMid2Eq(c) == << MB(c)*N2(c.v1), MA(c)*N2(c.v0), MA(c)*N2(c.v0) >>

Generic(c) == /\ MC(c) # 0 /\ MA(c) # 0 /\ MB(c) # 0 /\ \A i \in 1..3 : Chi(c)[i] # 0
   /\ D3(c.v0,c.v1,c.t) # 0 /\ L1Cmp(c) # 0 /\ InPlaneFits(c,L1N(c)) /\ (c.pyth = 1 => (~InfTie(c) /\ InPlaneFits(c,InfN(c))))
   /\ N2(c.v1)*Dot(c.v0,c.t) # Dot(c.v0,c.v1)*Dot(c.v1,c.t) /\ Dot(c.v0,c.v1)*Dot(c.v0,c.t) # N2(c.v0)*Dot(c.v1,c.t)

(* what triangulate() returns, as the noise that is asked for is absent ("none"), zero or not *)
Returns(cal,obs) == <<"p">> \o (IF cal = "none" THEN <<>> ELSE <<"cal">>) \o (IF obs = "none" THEN <<>> ELSE <<"obs">>)
                     \o (IF cal # "none" /\ obs # "none" THEN <<"joint">> ELSE <<>>)
(* four times the variance of the pixels (x0,y0,x1,y1), if their standard deviation is s, and the correlation r2/2 *)
VarQ(s,r2) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN 4*s*s ELSE IF i - j \in {2,-2} THEN r2*r2*s*s ELSE 0]]
RECURSIVE SumTo(_,_)
SumTo(F(_),n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F,n-1)
Propagate(J,V) == [i \in 1..3 |-> [j \in 1..3 |-> LET G(a) == LET H(b) == J[i][a]*V[a][b]*J[j][b] IN SumTo(H,4) IN SumTo(G,4)]]
=============================================================================
