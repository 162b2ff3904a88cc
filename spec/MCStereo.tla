------------------------------- MODULE MCStereo -------------------------------
EXTENDS Stereo, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Tilts == << <<1,0,0,0>>, <<10,0,1,0>>, <<10,1,0,0>>, <<10,1,1,0>>, <<9,-1,2,1>>, <<5,0,2,1>>, <<5,1,-2,0>>, <<3,0,1,-1>>, <<2,0,1,0>>, <<2,0,-1,1>>, <<1,0,1,0>>, <<2,0,2,1>>, <<1,0,2,0>>, <<1,2,1,0>>, <<0,1,0,0>>, <<7,0,-4,3>>, <<1,0,0,1>> >>
Rolls == << <<1,0>>, <<1,0>>, <<1,1>>, <<0,1>>, <<7,-2>> >>
Kind == <<"system","sparse","dense","maps","reject","system","dense","system">>[1 + Pick(1,8)]
B0 == <<1,2,3,-1,-2,5>>[1 + Pick(2,6)]
Az(k) == <<40,60,90,20,120,150,1,75,100,89,160>>[1 + Pick(k,11)]
Ppd(k) == LET a == Pick(k,12) IN IF a = 0 THEN 0 ELSE IF a < 8 THEN 1 + Pick(k+1,60) ELSE -(1 + Pick(k+1,16))
Geom == [kind |-> Kind, g |-> 1 + Pick(3,NGens), q0 |-> Tilts[1 + Pick(4,Len(Tilts))], roll |-> Rolls[1 + Pick(5,5)], b |-> IF Pick(6,40) = 0 THEN 0 ELSE B0]
System == Geom @@ [ rect |-> IF Pick(20,30) = 0 THEN <<"LENSMODEL_LONLAT","LENSMODEL_STEREOGRAPHIC","LENSMODEL_OPENCV4">>[1 + Pick(21,3)] ELSE <<"LENSMODEL_LATLON","LENSMODEL_PINHOLE">>[1 + Pick(22,2)],
   auto |-> Pick(23,2), az0 |-> Pick(24,60) - 30, el0 |-> IF Pick(25,2) = 0 THEN 0 ELSE Pick(26,40) - 20, azfov |-> IF Pick(27,40) = 0 THEN -5*Pick(28,2) ELSE Az(29), elfov |-> IF Pick(30,40) = 0 THEN -5*Pick(31,2) ELSE <<30,60,90,100,2,45>>[1 + Pick(32,6)],
   margin |-> <<10,10,0,25,1>>[1 + Pick(33,5)], ppdaz |-> Ppd(34), ppdel |-> Ppd(37), lens0 |-> <<"pinhole","latlon","stereographic","lonlat","cahvore">>[1 + Pick(40,5)], lens1 |-> <<"pinhole","latlon","cahvore">>[1 + Pick(41,3)],
   E |-> Pick(42,3), defaults |-> 0 ]
Central(c) == IF (c.lens0 = "cahvore" /\ c.E = 1) \/ (c.lens1 = "cahvore" /\ c.E = 2) THEN 0 ELSE 1
SystemD == LET s == System c == IF Pick(43,6) = 0 THEN [s EXCEPT !.defaults = 1, !.rect = "LENSMODEL_LATLON", !.auto = 1, !.el0 = 0, !.margin = 10, !.ppdaz = -4, !.ppdel = -4] ELSE s IN c @@ [central |-> Central(c)]
Lim(k) == LET a == Pick(k,6) IN IF a < 2 THEN <<"none",0>> ELSE IF a = 2 THEN <<"px", Pick(k+1,9)>> ELSE IF a = 3 THEN <<"quarter", Pick(k+1,37)>> ELSE <<"scaled", Pick(k+1,9)>>
Dense == Geom @@ [ f |-> 2*(10 + Pick(20,15)), fy |-> (IF Pick(21,2) = 0 THEN 2 ELSE 1)*(10 + Pick(20,15)), cx |-> Pick(22,6)-1, cy |-> Pick(23,5)-1, s |-> <<1,2,4,16>>[1 + Pick(24,4)], D |-> [i \in 1..3 |-> [j \in 1..4 |-> IF Pick(25+4*i+j,4) = 0 THEN -Pick(60+4*i+j,3) ELSE 1 + Pick(80+4*i+j,40)]],
   min |-> Lim(50), max |-> LET m == Lim(52) IN IF m[1] = "none" THEN m ELSE <<m[1],m[2] + (IF Pick(59,3) = 0 THEN 3 ELSE 9) + (IF m[1] = "scaled" THEN 10 ELSE IF m[1] = "quarter" THEN 7 ELSE 0)>>, dtype |-> <<"int16","int16","int32","float64","float32","int64","uint16","uint8","int8">>[1 + Pick(54,9)],
   form |-> <<"dense","sparse","row","one","scalar","unproject","ranges","spunproject">>[1 + Pick(55,8)], rect |-> <<"LENSMODEL_LATLON","LENSMODEL_PINHOLE">>[1 + Pick(56,2)], frac |-> Pick(57,2) ]
Sparse == Geom @@ [ pts |-> [i \in 1..4 |-> << Pick(20+i,11)-5, Pick(30+i,9)-4, 1 + Pick(40+i,12) >>], special |-> <<"none","nan","inf","zero","neg">>[1 + Pick(50,5)], f |-> 100 + Pick(51,100), fy |-> 80 + Pick(52,90), cx |-> Pick(53,40), cy |-> Pick(54,40), s |-> <<1,2,16,3>>[1 + Pick(55,4)],
   rect |-> <<"LENSMODEL_LATLON","LENSMODEL_PINHOLE">>[1 + Pick(56,2)], form |-> <<"array","grid","each">>[1 + Pick(57,3)] ]
Maps == Geom @@ [ rect |-> <<"LENSMODEL_LATLON","LENSMODEL_PINHOLE">>[1 + Pick(20,2)], lens0 |-> <<"pinhole","latlon","stereographic","lonlat">>[1 + Pick(21,4)], lens1 |-> <<"pinhole","latlon","stereographic">>[1 + Pick(22,3)], azfov |-> 20 + Pick(23,50), elfov |-> 20 + Pick(24,40), el0 |-> Pick(25,20) - 10, ppd |-> 1 + Pick(26,6),
   pts |-> [i \in 1..4 |-> << Pick(30+i,11)-5, Pick(34+i,7)-3, 4 + Pick(38+i,12) >>] ]
Reject == Geom @@ [ how |-> <<"imagersize","intrinsics","rotation","down","forward","left","lens","three","one","shape","both","neither","min","max","emptyrange">>[1 + Pick(20,15)], api |-> <<"range","unproject","maps","sparse">>[1 + Pick(21,4)] ]
Case == CASE Kind = "system" -> SystemD [] Kind = "dense" -> Dense [] Kind = "sparse" -> Sparse [] Kind = "maps" -> Maps [] OTHER -> Reject
(* an image is some pixels wide *)
Wide(fov,ppd) == fov <= 0 \/ fov >= 20 \/ fov*ppd >= 16
Ok(c) == /\ Dir(c)[3] # 0
         /\ (c.kind # "system" => (c.b # 0 /\ Dir(c)[3] > 0 /\ c.b > 0))
         /\ (c.kind = "dense" => (c.min[1] = "none" \/ c.max[1] = "none" \/ Lim4(c,c.min) + 8 <= Lim4(c,c.max)))
         /\ (c.kind = "system" => (Wide(c.azfov,c.ppdaz) /\ Wide(c.elfov,c.ppdel)))
         (* a CAHVORE camera has no resolution where it does not see *)
         /\ ((c.kind = "system" /\ c.lens0 = "cahvore" /\ (c.ppdaz < 0 \/ c.ppdel < 0)) => (10*Abs(Dir(c)[1]) < 3*Abs(Dir(c)[3]) /\ 10*Abs(Dir(c)[2]) < 3*Abs(Dir(c)[3])))
         /\ Size(RectPose(c)) < 100000
Init == n \in 1..N
Next == FALSE /\ n' = n
Laws == LET c == Case IN Ok(c) =>
  (* both cameras are in the rectified frame where they should be *)
  LET R == RectPose(c) W == Gens[c.g] x == TransformR(R,Invert(W).t,Invert(W).d) IN
    /\ Size(W)*Norm2(W.q) < 10000 => x = [t |-> <<0,0,0>>, d |-> 1]
    /\ LET m == Mat(FlipQ(c)) IN
         /\ m[1][1]*c.b >= 0
         /\ MV(m,Dir(c))[3] > 0
         /\ MV(m,Dir(c))[1] = View(c)[1]
    /\ LET a == Dir(c) b == Mat(Q1(c)) k == c.roll[1]*c.roll[1] + c.roll[2]*c.roll[2] IN b[1][3] = k*a[1] /\ b[2][3] = -k*a[2] /\ b[3][3] = k*a[3]
Export == LET c == Case IN Ok(c) => PrintT("CASE " \o ToJson([c |-> c, q1 |-> Q1(c), view |-> View(c), n |-> Norm2(RectPose(c).q), d |-> RectPose(c).d]))
=============================================================================
