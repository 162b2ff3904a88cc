------------------------------ MODULE MCSolve ------------------------------
EXTENDS Solve, Json
CONSTANTS N, Depth, Stride, Seed
VARIABLES n, ops, s
vars == <<n,ops,s>>
NB == 18                                             \* corners with immutable residuals: two boards of 3 x 3
NA == 36                                             \* all of the corners
NP == 3
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
P0(i,k) == (((i*7919 + Seed*104729 + k*15485) % 32749)*((i + 31*k) % 1237) + k*97 + i) % 10007
Start(i) == LET p(k,m) == P0(i,k) % m IN
  [ w |-> [m \in 1..NA |-> <<1,1,1,2,1,3,1,1,-1,1,1,0>>[1 + p(m,12)]],
    e |-> [m \in 1..NA |-> IF m > NB THEN <<0,0>> ELSE IF p(100+m,9) = 0 THEN << <<7,-9,12,30>>[1+p(200+m,4)], p(300+m,5)-2 >> ELSE << p(200+m,5)-2, p(300+m,5)-2 >>],
    pw |-> [m \in 1..NP |-> <<1,2,-1,1>>[1+p(400+m,4)]], pe |-> [m \in 1..NP |-> << p(500+m,5)-2, IF m = 1 THEN 25 ELSE 1 >>] ]
Init == n \in 1..N /\ ops = <<>> /\ s = Start(n)
Ops == LET k == Len(ops)  i == 1 + (P(600+7*k) % NB) IN
  { <<"solve",1>>, <<"solve",0>>, <<"seed">>, <<"err",i,15+(P(700+k)%20),(P(800+k)%40)-20>>, <<"err",1 + (P(650+k) % NB),(P(710+k)%5)-2,1>>, <<"flip",1 + (P(900+k) % NA)>>, <<"point",1 + (P(910+k)%NP),40>> }
Next == Len(ops) < Depth /\ \E o \in Ops : ops' = Append(ops,o) /\ s' = Apply(s,o) /\ UNCHANGED n
Same(a,b) == a.e = b.e /\ a.pe = b.pe /\ a.pw = b.pw
Laws ==
  LET r == Reject(s) IN /\ Same(s,r) /\ (\A m \in DOMAIN s.w : r.w[m] = s.w[m] \/ (In(s.w[m]) /\ r.w[m] = -s.w[m]))   \* outliers are only ever added
  /\ ~Trigger(r)                                                                 \* nothing left beyond 5 sigma; idempotent
  /\ (Trigger(s) => Mark(s) # s)
  /\ Sum2(r.w,s.e) <= Sum2(s.w,s.e)
H == LET v(o) == CASE o[1] = "solve" -> 3 + o[2] [] o[1] = "err" -> 11 + o[2] + o[3] [] o[1] = "flip" -> 40 + o[2] [] o[1] = "point" -> 70 [] OTHER -> 90 IN
     FoldLeft(LAMBDA a,o : (a*31 + v(o)) % 10007, n*17 + Seed, ops)
(* no decision along the way hangs on a rounding error; there are enough inliers *)
Fine(q) == ~Edge(q) /\ LET r == Reject(q) IN NIn(r) > 12 /\ Sum2(r.w,q.e) > 0
Decidable == \A k \in 1..Len(ops) : ops[k] = <<"solve",1>> => Fine(Run(Start(n),ops,k-1))
Interesting == Len(ops) = Depth /\ \E k \in 1..Depth : ops[k][1] = "solve"
Export == (Interesting /\ H % Stride = 0 /\ Decidable) => PrintT("CASE " \o ToJson([kind |-> "exact", n |-> n, s |-> Start(n), ops |-> ops]))
=============================================================================
