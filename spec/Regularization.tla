---------------------------- MODULE Regularization ----------------------------
(* The regularization measurements of a problem, exactly. Distortions are k/1000, the
   center pixel is k/4, translations k/10. A term is <<num, n2, unit>>: its value is
   num / (unit sqrt(n2)). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Prod(S,T) == S \X T
RECURSIVE Cat(_,_)
Cat(F(_),n) == IF n = 0 THEN <<>> ELSE Cat(F,n-1) \o F(n)
Rational(c) == c.kind = "opencv" /\ c.nd >= 8        \* k5, k6, k7 are in a denominator
Parametric(c,i) == [j \in 1..c.nd |-> << c.d[i][j] * (IF Rational(c) /\ j \in 6..8 THEN 5 ELSE 1), 1, 10000 >>]
(* knots: row by row; (ux,uy) points from the center of the grid to the knot *)
Knot(c,k) == << 2*(k % c.nx) - c.nx + 1, 2*(k \div c.nx) - c.ny + 1 >>
Away(v) == IF v = <<0,0>> THEN <<1,0>> ELSE v
KnotTerms(c,i,k) == LET v0 == Knot(c,k) v == Away(v0) dx == c.d[i][2*k+1] dy == c.d[i][2*k+2] n2 == v[1]*v[1]+v[2]*v[2] m == IF v0 = <<0,0>> THEN 1 ELSE 10 IN
   << << dx*v[1]+dy*v[2], n2, 100000 >>, << m*(dx*v[2]-dy*v[1]), n2, 100000 >> >>
Splined(c,i) == LET F(k) == KnotTerms(c,i,k-1) IN Cat(F,c.nx*c.ny)
Dist(c,i) == IF c.kind = "splined" THEN Splined(c,i) ELSE Parametric(c,i)
Center(c,i) == << << c.center[i][1] - 2*(c.size[i][1]-1), 1, 4*c.size[1][1] >>, << c.center[i][2] - 2*(c.size[i][2]-1), 1, 4*c.size[1][1] >> >>
Unity(c) == << << c.t[1][1]*c.t[1][1] + c.t[1][2]*c.t[1][2] + c.t[1][3]*c.t[1][3] - 100, 1, 10 >> >>
NCam(c) == Len(c.size)
Terms(c) == (IF c.reg # 0 /\ c.dist = 1 THEN LET F(i) == Dist(c,i) IN Cat(F,NCam(c)) ELSE <<>>)
         \o (IF c.reg # 0 /\ c.core = 1 THEN LET F(i) == Center(c,i) IN Cat(F,NCam(c)) ELSE <<>>)
         \o (IF c.unity = 1 /\ c.ext = 1 /\ Len(c.t) > 0 THEN Unity(c) ELSE <<>>)
(* parameters at rest: nothing is pulled anywhere *)
Rest(c) == [c EXCEPT !.d = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> 0]], !.center = [i \in DOMAIN @ |-> <<2*(c.size[i][1]-1),2*(c.size[i][2]-1)>>], !.t = [k \in DOMAIN @ |-> <<0,6,-8>>]]
(* the terms of a knot see all of its deviation: no deviation is free *)
Seen(c) == c.kind = "splined" => \A k \in 0..(c.nx*c.ny-1) : \A i \in 1..NCam(c) :
   LET t == KnotTerms(c,i,k) m == IF Knot(c,k) = <<0,0>> THEN 1 ELSE 10 IN
     t[1][1]*t[1][1]*m*m + t[2][1]*t[2][1] = m*m*t[1][2]*(c.d[i][2*k+1]*c.d[i][2*k+1]+c.d[i][2*k+2]*c.d[i][2*k+2])
=============================================================================
