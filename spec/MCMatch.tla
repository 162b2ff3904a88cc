------------------------------- MODULE MCMatch -------------------------------
EXTENDS Match, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Big(i,m) == (P(200 + i)*P(900 + 3*i) + P(500+2*i)) % m
MapNames == <<"same","same","twice","half","turn","flip","shear","wide">>
Methods == <<"default","default","sqdiff","ccorr","ccorr_normed","sqdiff_normed","ccoeff","ccoeff_normed">>
Faults == <<"both","neither","color0","color1","size0","size3","sizef">>
Size == [i \in {1,2} |-> 1 + Pick(2+i,4)]
Small == IF Size[1]*Size[2] > 9 THEN <<3,3>> ELSE <<Size[1],Size[2]>>
W1 == 9 + Pick(5,6)
H1 == 8 + Pick(6,6)
MapName == MapNames[1 + Pick(1,8)]
W0 == IF MapName = "half" THEN 20 + Pick(7,6) ELSE 8 + Pick(7,6)
H0 == IF MapName = "half" THEN 18 + Pick(8,6) ELSE 8 + Pick(8,6)
Im(k,w,h) == [y \in 1..h |-> [x \in 1..w |-> Big(k + 31*y + x,6)]]
(* most of the time, the second image shows some of the first, moved by a few pixels *)
Base == LET m == Pick(9,4) IN
   [map |-> MapName, im0 |-> Im(1000,W0,H0), im1 |-> Im(3000,W1,H1), size |-> Small, radius |-> 1 + Pick(10,5), method |-> Methods[1+Pick(11,8)],
    q0 |-> IF Pick(12,8) = 0 THEN <<Pick(13,4*W0) , Pick(14,4*H0)>> ELSE <<4*(W0 \div 4) + Pick(13,2*W0), 4*(H0 \div 4) + Pick(14,2*H0)>>,
    b |-> <<0,0>>, fault |-> IF Pick(15,25) = 0 THEN Faults[1+Pick(16,7)] ELSE "none", how |-> IF MapName = "same" THEN Pick(17,2) ELSE 0,
    float |-> Pick(18,3), scalar |-> IF Small[1] = Small[2] THEN Pick(19,2) ELSE 0, layout |-> Pick(20,4), times |-> <<1,1,-2,3>>[1+Pick(21,4)], show |-> IF Pick(22,6) = 0 THEN 1 ELSE 0]
(* the estimate is put near the middle of image 1, or elsewhere *)
WithB == LET v == MV(Maps[MapName].A2,Base.q0) far == Pick(23,9) = 0
             t == IF far THEN <<Pick(24,2*W1), Pick(25,2*H1)>> ELSE <<W1 + Pick(24,5) - 2, H1 + Pick(25,5) - 2>>
             b == <<t[1] - (v[1] \div 4), t[2] - (v[2] \div 4)>> IN
   [Base EXCEPT !.b = <<2*(b[1] \div 2) + (IF MapName \in {"twice","wide"} THEN 0 ELSE Pick(26,2)), 2*(b[2] \div 2) + (IF MapName = "twice" THEN 0 ELSE Pick(27,2))>>]
(* the second image gets the template, moved *)
Planted(c) == IF Pick(28,3) = 0 \/ Kind(c) # "match" THEN c ELSE
   LET t == TLCEval(Template(c)) m == TMin(c) u == <<m[1] + Pick(29,2*c.radius+1) - c.radius, m[2] + Pick(30,2*c.radius+1) - c.radius>> IN
   [c EXCEPT !.im1 = [y \in DOMAIN c.im1 |-> [x \in DOMAIN c.im1[y] |->
       LET i == x - 1 - u[1] j == y - 1 - u[2] IN IF i \in 0..(c.size[1]-1) /\ j \in 0..(c.size[2]-1) THEN (t[1 + i + j*c.size[1]] + 2) \div 4 ELSE c.im1[y][x]]]]
Case == LET c == TLCEval(WithB) IN TLCEval(Planted(c))
Good(c) == Half(c) /\ ~Doubt(c)
Laws == \E c \in {TLCEval(WithB)} : Good(c) =>
   \* the map and its inverse
   /\ \A i \in {1,2} : MV(Maps[c.map].A2,MV(Maps[c.map].I2,<<i,3-i>>)) = <<4*i,4*(3-i)>>
   \* what corresponds to the estimate is q0
   /\ LET e == Estimate(c) s == MV(Maps[c.map].I2,<<e[1]-4*c.b[1],e[2]-4*c.b[2]>>) IN s = <<4*c.q0[1],4*c.q0[2]>>
   \* the center of the template is within half a pixel of the estimate
   /\ \A i \in {1,2} : Abs(8*TMin(c)[i] + 4*(c.size[i]-1) - Estimate(c)[i]) < 4
   /\ Kind(c) = "match" => \E z \in {Scores(c)} :
        /\ TMin(c) \in Positions(c)
        /\ c.method \in {"default","ccorr_normed"} => \A u \in DOMAIN z : z[u] <= 6003
        /\ c.method = "sqdiff" => \A u \in DOMAIN z : z[u] >= 0 /\ (z[u] = 0 <=> Patch(c,u) = Template(c))
        /\ Cardinality(Best(c,z)) <= 1
   \* a paraboloid is its own fit
   /\ LET a == 1 + Pick(40,9) b == 1 + Pick(41,9) g == [k \in 1..9 |-> a*X[k]*X[k] + b*Y[k]*Y[k] + X[k]*Y[k] + 2*a*X[k]] f == Fit(g) IN f = [x |-> 24*a, y |-> 0, xy |-> 12, xx |-> 12*a, yy |-> 12*b]
Export == \E c \in {Case} : Good(c) => PrintT("CASE " \o ToJson([c |-> c, kind |-> Kind(c)]))
Init == n \in 1..N
Next == UNCHANGED n
=============================================================================
