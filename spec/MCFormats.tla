------------------------------ MODULE MCFormats ------------------------------
EXTENDS Formats, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Kind == <<"write","cahvorread","ros","kalibr","tool","write","cahvorread","graft","ros","kalibr">>[1 + Pick(1,10)]
All == <<"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8","LENSMODEL_OPENCV12","LENSMODEL_CAHVOR","LENSMODEL_CAHVORE","LENSMODEL_LATLON","LENSMODEL_LONLAT","LENSMODEL_STEREOGRAPHIC","LENSMODEL_SPLINED_STEREOGRAPHIC">>
Axes == << <<0,0,1>>, <<1,2,2>>, <<2,3,6>>, <<-1,2,2>>, <<2,-6,3>>, <<-2,1,2>> >>
Small(k) == Pick(k,4001) - 2000
Cam(lens,k) == [lens |-> lens, lin |-> <<0,100,37,50>>[1 + Pick(k,4)], f |-> <<20 + Pick(k+1,40), 20 + Pick(k+2,40), 5 + Pick(k+3,25), 5 + Pick(k+4,25)>>, o |-> Axes[1 + Pick(k+5,6)],
   r |-> IF Pick(k+6,6) = 0 THEN <<0,0,0>> ELSE <<Small(k+7),1 + Pick(k+8,900),Small(k+9)>>, e |-> <<1 + Pick(k+10,300),Small(k+11),Small(k+12)>>,
   dist |-> [i \in 1..Ndist(lens) |-> Small(k+12+i)], P |-> Gens[1 + Pick(k+30,NGens)], size |-> <<40 + Pick(k+31,30), 30 + Pick(k+32,30)>>, region |-> <<"none","none","poly","empty">>[1 + Pick(k+33,4)] ]
AnyLens(k) == All[1 + Pick(k,11)]
Write == LET fmt == <<"cahvor","cahvor","ros">>[1 + Pick(2,3)] IN [kind |-> "write", m |-> Cam(AnyLens(3),10), fmt |-> fmt, via |-> IF fmt = "ros" THEN <<"yaml","yml","file">>[1 + Pick(4,3)] ELSE <<"cahv","cahvor","cahvore","file">>[1 + Pick(4,4)], note |-> Pick(5,3)]
Keys == <<"Dimensions","C","A","H","V","O","R","E","Model">>
Decls == <<"CAHVORE1","CAHVORE1,1","CAHVORE1,0.5","CAHVORE2","CAHVORE2,0","CAHVORE2,1","CAHVORE3","CAHVORE3,0.37 = general","CAHVORE4,0.2","CAHVORE 3 , 0.5","CAHVOR","CAHVORE","CAHV = perspective, linear">>
CEdit(k) == LET a == Pick(k,14) IN
  CASE a = 0 -> <<"reorder","">> [] a = 1 -> <<"comments","">> [] a = 2 -> <<"spaces","">> [] a = 3 -> <<"scaleA","">> [] a = 4 -> <<"sci","">> [] a = 5 -> <<"ints","">> [] a = 6 -> <<"legacy","">>
    [] a = 7 -> <<"region",<<"poly","odd","empty">>[1 + Pick(k+1,3)]>> [] a \in {8,9} -> <<"drop",Keys[1 + Pick(k+1,9)]>> [] a = 10 -> <<"short",Keys[1 + Pick(k+1,8)]>> [] a = 11 -> <<"long",Keys[2 + Pick(k+1,7)]>> [] a = 12 -> <<"text",Keys[1 + Pick(k+1,8)]>>
    [] OTHER -> <<"model",Decls[1 + Pick(k+1,13)]>>
Edits(k,E(_)) == [i \in 1..Pick(k,4) |-> E(k+2*i)]
CRead == LET l == <<"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_OPENCV8","LENSMODEL_CAHVOR","LENSMODEL_CAHVORE","LENSMODEL_OPENCV12","LENSMODEL_CAHVORE","LENSMODEL_OPENCV5">>[1 + Pick(2,8)] m == Cam(l,10) IN
   [kind |-> "cahvorread", m |-> [m EXCEPT !.lin = 37, !.region = "none", !.r = <<@[1],1 + Abs(@[2]),@[3]>>, !.P = IF Pick(3,3) = 0 THEN Identity ELSE @], edits |-> Edits(4,CEdit)]
RKeys == <<"K","P","D","lens","w","h">>
REdit(k) == LET a == Pick(k,16) IN
  CASE a = 0 -> <<"drop",RKeys[1 + Pick(k+1,6)]>> [] a = 1 -> <<"dup",<<"K","P","D","R","w">>[1 + Pick(k+1,5)]>> [] a \in {2,3} -> <<"Rnone","">> [] a = 4 -> <<"Rzero","">> [] a = 5 -> <<"Rbad","">> [] a = 6 -> <<"Rshape",<<"8","text","scalar">>[1 + Pick(k+1,3)]>>
    [] a = 7 -> <<"Pzero","">> [] a = 8 -> <<"Pty","">> [] a = 9 -> <<"Pshape","">> [] a = 10 -> <<"Kskew","">> [] a = 11 -> <<"K22","">> [] a = 12 -> <<"lens",<<"equidistant","fisheye","">>[1 + Pick(k+1,3)]>> [] a = 13 -> <<"dshort","">> [] a = 14 -> <<"dlong","">> [] OTHER -> <<"extra","">>
Ros == [kind |-> "ros", m |-> Cam(<<"LENSMODEL_OPENCV5","LENSMODEL_OPENCV8">>[1 + Pick(2,2)],10), b |-> Pick(3,9) - 4, pf |-> <<30,600>>[1 + Pick(4,2)], style |-> [i \in 1..6 |-> Pick(50+i,3)], json |-> Pick(5,3), edits |-> [i \in 1..(Pick(6,6) \div 2) |-> REdit(60+2*i)]]
KKeys == <<"camera_model","intrinsics","resolution","distortion_model","distortion_coeffs","T_cn_cnm1">>
KEdit(k) == LET a == Pick(k,8) IN
  CASE a \in {0,1} -> <<"drop",KKeys[1 + Pick(k+1,6)]>> [] a = 2 -> <<"Tshape","">> [] a = 3 -> <<"Tlast","">> [] a = 4 -> <<"Tnotrot","">> [] a = 5 -> <<"camera_model","">> [] a = 6 -> <<"distortion_model","">> [] OTHER -> <<"intrinsics","">>
KLens(k) == IF Pick(k,25) = 0 THEN AnyLens(k+1) ELSE <<"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_CAHVOR","LENSMODEL_CAHVORE">>[1 + Pick(k+1,4)]
Kalibr == LET num == 1 + Pick(2,3) IN [kind |-> "kalibr", ms |-> [i \in 1..num |-> [Cam(KLens(3 + 2*i),50*i) EXCEPT !.P = Gens[<<1,2,3,4,9,10,5>>[1 + Pick(40+i,IF i = 1 THEN 7 ELSE 6)]]]], toref |-> Pick(10,3) \div 2, fromref |-> Pick(11,3) \div 2,
   inline |-> IF num = 1 THEN Pick(12,2) ELSE 0, camera |-> IF Pick(13,3) > 0 THEN "" ELSE <<"cam0","cam1","cam2">>[1 + Pick(14,3)], which |-> 1 + Pick(15,num), edits |-> IF Pick(16,2) = 0 THEN << >> ELSE <<KEdit(17)>>, stdin |-> Pick(18,4) \div 3 ]
Tool == [kind |-> "tool", tool |-> <<"mrcal-from-cahvor","mrcal-to-cahvor","mrcal-from-ros">>[1 + Pick(2,3)], files |-> [i \in 1..(1 + Pick(3,3)) |-> [done |-> Pick(10+i,3) \div 2, exists |-> Pick(20+i,3) \div 2]], force |-> Pick(4,2), outdir |-> Pick(5,2), dot |-> Pick(6,2)]
Graft == [kind |-> "graft", a |-> Cam(AnyLens(2),10), b |-> Cam(AnyLens(3),60), stdin |-> Pick(4,3)]
Case == CASE Kind = "write" -> Write [] Kind = "cahvorread" -> CRead [] Kind = "ros" -> Ros [] Kind = "kalibr" -> Kalibr [] Kind = "tool" -> Tool [] OTHER -> Graft
(* no two edits of the same thing *)
Sort(e) == CASE e[1] \in {"drop","short","long","text"} -> IF e[2] = "Model" THEN "model" ELSE e[2] [] e[1] = "model" -> "model" [] e[1] = "scaleA" -> "A" [] e[1] \in {"dup"} -> e[2] [] e[1] \in {"Rnone","Rzero","Rbad","Rshape"} -> "R" [] e[1] \in {"Pzero","Pty","Pshape"} -> "P" [] e[1] \in {"Kskew","K22"} -> "K" [] e[1] \in {"dshort","dlong"} -> "D" [] e[1] \in {"sci","ints"} -> "format" [] OTHER -> e[1]
Distinct(c) == \A i,j \in DOMAIN c.edits : i # j => Sort(c.edits[i]) # Sort(c.edits[j])
(* whether distortions that are not used are well-formed does not matter *)
Ok(c) == CASE c.kind = "cahvorread" -> Distinct(c) /\ (Dropped(c,"R") => ~\E i \in DOMAIN c.edits : c.edits[i][2] \in {"O","E"} /\ c.edits[i][1] # "drop")
           [] c.kind = "ros" -> Distinct(c)
           [] c.kind = "kalibr" -> (\A i \in DOMAIN c.ms : Size(Along(c,i)) < 20000 /\ Size(Chain(c)[i]) < 20000)
              /\ \A i \in DOMAIN c.edits : LET m == c.ms[c.which] e == c.edits[i] IN
                   /\ (e[1] \in {"distortion_model"} => m.lens \notin Cahvors)
           [] OTHER -> TRUE
Init == n \in 1..N
Next == FALSE /\ n' = n
FileLaw(m) == LET F == FileOf(m) q == m.P.q k == Norm2(q) M == Mat(q) IN
   /\ Dot3(F.A,F.A) = k*k
   /\ Dot3(F.H,F.A) = m.f[3]*k*k /\ Dot3(F.V,F.A) = m.f[4]*k*k
   /\ Dot3(F.H,F.H) = (m.f[1]*m.f[1] + m.f[3]*m.f[3])*k*k /\ Dot3(F.V,F.V) = (m.f[2]*m.f[2] + m.f[4]*m.f[4])*k*k
   /\ Dot3(F.H,F.V) = m.f[3]*m.f[4]*k*k
   /\ MV(M,F.O) = [i \in 1..3 |-> k*k*m.o[i]]
   /\ TransformR(m.P,F.C,Invert(m.P).d) = [t |-> <<0,0,0>>, d |-> 1]
Laws == LET c == Case IN Ok(c) =>
   CASE c.kind \in {"write","cahvorread"} -> FileLaw(c.m)
     [] c.kind = "ros" -> (~DidAny(c,{"Rnone","Rzero","Pzero"}) /\ RosOk(c)) => Invert(RosRead(c).P) = Pose3(c.m.P.q,<<c.b,0,0>>,1)
     (* a chain leads back to the poses it was made of *)
     [] c.kind = "kalibr" -> (c.toref = 0 /\ c.fromref = 0 /\ c.edits = << >>) => \A i \in DOMAIN c.ms : Along(c,i) = Pose3(c.ms[i].P.q,c.ms[i].P.t,c.ms[i].P.d)
     [] OTHER -> TRUE
ExpP(m) == [q |-> m.P.q, d |-> m.P.d]
Exp(c) == CASE c.kind = "write" -> << ExpP(IF c.fmt = "ros" THEN AfterRos(c.m) ELSE c.m) >>
            [] c.kind = "cahvorread" -> << ExpP(c.m) >>
            [] c.kind = "ros" -> << ExpP(RosRead(c)) >>
            [] c.kind = "kalibr" -> [i \in DOMAIN c.ms |-> ExpP(KalibrRead(c,i))]
            [] c.kind = "graft" -> << ExpP(c.b) >>
            [] OTHER -> << >>
Export == LET c == Case IN Ok(c) => PrintT("CASE " \o ToJson([c |-> c, exp |-> Exp(c), inv |-> IF c.kind \in {"write","cahvorread"} THEN Invert(c.m.P) ELSE Identity, file |-> IF c.kind = "cahvorread" THEN FileOf(c.m) ELSE 0, chain |-> IF c.kind = "kalibr" THEN Chain(c) ELSE << >>]))
=============================================================================
