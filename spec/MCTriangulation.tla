--------------------------- MODULE MCTriangulation ---------------------------
EXTENDS Triangulation, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Kind == <<"meet","skew","skew","pair","meet">>[1 + Pick(1,5)]
Pm == << Pick(2,11)-5, Pick(3,11)-5, IF Pick(4,8) = 0 THEN -(2 + Pick(5,5)) ELSE 2 + Pick(5,9) >>
T == IF Pick(6,10) = 0 THEN << 0, 0, 1 + Pick(7,2) >> ELSE << Pick(8,9)-4, Pick(9,7)-3, Pick(10,7)-3 >>
Pyth == << <<0,0,1>>, <<1,2,2>>, <<2,1,2>>, <<-2,1,2>>, <<2,-2,1>>, <<-1,-2,2>>, <<2,3,6>>, <<-3,2,6>>, <<3,-6,2>>, <<6,2,3>>, <<-2,-3,6>>, <<0,3,4>>, <<-4,0,3>>, <<4,-4,7>>, <<1,4,8>>, <<-4,1,8>>, <<2,1,-2>> >>
Sm(k) == << Pick(k,7)-3, Pick(k+1,7)-3, Pick(k+2,5)-1 >>
G == 1 + Pick(11,NGens)
A == IF Pick(12,6) = 0 THEN -1 - Pick(13,2) ELSE 1 + Pick(13,3)
B == IF Pick(14,6) = 0 THEN -1 - Pick(15,2) ELSE 1 + Pick(15,3)
Py == Pick(16,2)
(* special positions: the point on the baseline, a ray along it, parallel rays *)
Meet == LET s == Pick(17,8) t0 == IF T = <<0,0,0>> THEN <<1,0,0>> ELSE T p == IF s = 0 /\ t0[3] # 0 THEN Times(2,t0) ELSE Pm IN
   [kind |-> "meet", p |-> p, t |-> t0, a |-> A, b |-> B, v0 |-> Times(A,p), v1 |-> Times(B,Minus(p,t0)), g |-> G, pyth |-> 0]
Par == LET t0 == IF T = <<0,0,0>> THEN <<1,0,0>> ELSE T IN [kind |-> "meet", p |-> Pm, t |-> t0, a |-> 1, b |-> 1, v0 |-> Pm, v1 |-> Times(<<1,2,-1>>[1 + Pick(18,3)],Pm), g |-> G, pyth |-> 0]
Skew == [kind |-> "skew", p |-> <<0,0,0>>, t |-> << Pick(8,7)-3, Pick(9,5)-2, Pick(10,5)-2 >>, a |-> 1, b |-> 1, v0 |-> IF Py = 1 THEN Pyth[1 + Pick(20,Len(Pyth))] ELSE Sm(21), v1 |-> IF Py = 1 THEN Pyth[1 + Pick(22,Len(Pyth))] ELSE Sm(31), g |-> G, pyth |-> Py]
Noise == <<"none","zero","one">>
(* two models and a pair of pixels: the point is in front of both cameras *)
Pair == LET t0 == IF T = <<0,0,0>> THEN <<1,0,0>> ELSE T IN [kind |-> "pair", p |-> Pm, t |-> t0, a |-> 1, b |-> 1, v0 |-> Pm, v1 |-> Minus(Pm,t0), g |-> G, pyth |-> 0,
   g0 |-> 1 + Pick(40,NGens), shape |-> Pick(41,5), cal |-> Noise[1 + Pick(42,2)], obs |-> Noise[1 + Pick(43,3)], s |-> 1 + Pick(44,2), r2 |-> Pick(45,3), lens |-> Pick(46,3), method |-> Pick(47,7), tool |-> IF Pick(48,12) = 0 THEN 1 ELSE 0]
Case == CASE Kind = "meet" /\ Pick(19,8) = 0 -> Par [] Kind = "meet" -> Meet [] Kind = "skew" -> Skew [] OTHER -> Pair
V1Local(c) == MV(Tr(Mat(Gens[c.g].q)),c.v1)
Front(c) == c.v0[3] > 0 /\ V1Local(c)[3] > 0 /\ ~Parallel(c.v0,c.v1)
Usable(c) == CASE c.kind = "skew" -> c.v0 # <<0,0,0>> /\ c.v1 # <<0,0,0>> /\ c.t # <<0,0,0>> /\ Generic(c)
               [] c.kind = "meet" -> c.v1 # <<0,0,0>> /\ (c.v0[3] # 0 \/ c.v1[3] # 0)
               [] OTHER -> Front(c)
Init == n \in 1..N
Next == FALSE /\ n' = n
LawsOf(c) ==
  /\ c.kind = "skew" =>
       /\ LET o == Geometric(c) IN o.m # <<0,0,0>> =>
            LET m == o.m r0 == Cross(m,c.v0) r1 == Cross(Minus(m,Times(o.d,c.t)),c.v1) IN
              ((MaxC(r0) < 10000 /\ MaxC(r1) < 10000) => ((OkMul(N2(r0),N2(c.v1)) /\ OkMul(N2(r1),N2(c.v0))) => N2(r0)*N2(c.v1) = N2(r1)*N2(c.v0)))
       /\ LET o == InPlane(c,L1N(c)) IN
            (o.m # <<0,0,0>> /\ MaxC(o.m) < 1000000 /\ OkMul(o.d,MaxC(c.t)+1)) => (IF L1Cmp(c) > 0 THEN Cross(Small(Minus(o.m,Times(o.d,c.t))),Small(c.v1)) = <<0,0,0>> ELSE Cross(Small(o.m),Small(c.v0)) = <<0,0,0>>)
       (* the names of the cameras do not matter *)
       /\ LET w == [c EXCEPT !.v0 = c.v1, !.v1 = c.v0, !.t = Times(-1,c.t)] x == Geometric(c) y == Geometric(w) IN
            /\ Convergent(c) = Convergent(w)
            /\ (x.m = <<0,0,0>>) = (y.m = <<0,0,0>>)
            /\ x.m # <<0,0,0>> => (x.d = y.d /\ x.m = Plus(y.m,Times(x.d,c.t)))
  /\ (c.kind = "meet" /\ c.a > 0 /\ c.b > 0 /\ ~Parallel(c.v0,c.v1)) => Geometric(c) = [m |-> c.p, d |-> 1]
Laws == LET c == Case IN Usable(c) => LawsOf(c)
Expect(c) == CASE c.kind = "skew" -> [c |-> c, geo |-> Geometric(c).d, l1 |-> InPlane(c,L1N(c)).d, inf |-> IF c.pyth = 1 THEN InPlane(c,InfN(c)).d ELSE 0, C |-> MC(c), B |-> MB(c)]
                [] OTHER -> [c |-> c]
Export == LET c == Case IN Usable(c) => PrintT("CASE " \o ToJson(Expect(c)))
=============================================================================
