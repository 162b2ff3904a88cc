------------------------------ MODULE MCPolygon ------------------------------
EXTENDS Polygon, SequencesExt, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Shapes == << <<<<0,0>>,<<9,0>>,<<9,9>>,<<0,9>>>>, <<<<0,0>>,<<4,0>>,<<4,3>>,<<0,3>>>>, <<<<0,0>>,<<0,2>>,<<3,2>>,<<3,0>>>>, <<<<0,0>>,<<8,2>>,<<3,7>>>>, <<<<1,0>>,<<5,0>>,<<5,5>>,<<3,5>>,<<3,2>>,<<1,2>>>>,
  <<<<0,0>>,<<9,0>>,<<9,9>>,<<7,9>>,<<7,2>>,<<2,2>>,<<2,9>>,<<0,9>>>>, <<<<4,0>>,<<8,4>>,<<4,8>>,<<0,4>>>>, <<<<0,0>>,<<12,1>>,<<12,2>>,<<0,1>>>>, <<<<0,0>>,<<1,0>>,<<1,11>>,<<0,11>>>>, <<<<0,0>>,<<3,1>>,<<6,0>>,<<5,3>>,<<6,6>>,<<3,5>>,<<0,6>>,<<1,3>>>>,
  <<<<0,0>>,<<13,0>>,<<13,13>>,<<0,13>>>>, <<<<0,0>>,<<1,0>>,<<1,1>>,<<0,1>>>>, <<<<0,0>>,<<13,0>>,<<13,13>>,<<0,13>>>>, <<<<0,0>>,<<1,0>>,<<1,1>>,<<0,1>>>> >>
(* a polygon around a center *)
Rand(k) == LET m == 4 + Pick(k,5) dir == << <<3,0>>,<<3,2>>,<<1,3>>,<<-1,3>>,<<-3,2>>,<<-3,-1>>,<<-1,-3>>,<<2,-3>> >> q == [i \in 1..m |-> 1 + ((i-1)*8) \div m] IN
   [i \in 1..m |-> LET r == 1 + Pick(k+10+i,2) IN << 6 + r*dir[q[i]][1], 6 + r*dir[q[i]][2] >>]
One(k) == IF Pick(k,3) = 0 THEN Rand(k+1) ELSE Shift(Shapes[1 + Pick(k+40,Len(Shapes))],<<Pick(k+50,8)-1,Pick(k+60,8)-1>>)
Turn(p,k) == IF k = 0 THEN p ELSE Reverse(p)
Api == <<"diff","within","close","diff","within">>[1 + Pick(1,5)]
A == Turn(One(100),Pick(2,2))
B == LET r == Pick(5,8) IN IF r = 0 THEN A ELSE Turn(One(200),Pick(3,2))
Empty == Pick(6,15) = 0
Shapes2 == <<"point","list","grid","none","float32","strided","cube">>
Case == [api |-> Api, a |-> IF Api # "diff" /\ Empty THEN <<>> ELSE A, b |-> B, closed |-> Pick(7,2), form |-> Shapes2[1 + Pick(8,7)], none |-> IF Api # "diff" /\ Pick(9,15) = 0 THEN 1 ELSE 0, int |-> Pick(10,2),
         tool |-> IF Api = "within" /\ Pick(11,25) = 0 THEN 1 ELSE 0]
Ok(c) == (c.a = <<>> \/ Simple(c.a)) /\ Simple(c.b)
Init == n \in 1..N
Next == FALSE /\ n' = n
Laws == LET c == Case IN Ok(c) =>
  /\ \A x \in { Pt(i,j) : i \in {-2,3,5,8}, j \in {-1,4,6} } :
       /\ c.a # <<>> => (Inside(c.a,x) = Inside(Reverse(c.a),x) /\ Inside(c.a,x) = Inside(Append(Tail(c.a),Head(c.a)),x))
       /\ ~InDiff(c.b,c.b,x)
  /\ Close(Close(c.a)) = Close(c.a)
Export == LET c == Case IN Ok(c) => PrintT("CASE " \o ToJson(c))
=============================================================================
