---------------------------- MODULE MCProjection ----------------------------
(* A camera is chosen, then directions are projected one after another. *)
EXTENDS Projection, Json
CONSTANTS Stride, Seed, Deep
Fs == IF Deep THEN { <<I(100),I(60)>>, <<I(-32),I(64)>> } ELSE { <<I(100),I(60)>> }
Cs == { <<I(30),Rt(-7,2)>> }
z == Zero
KSets(m) == LET n == CASE m = "OPENCV4" -> 4 [] m = "OPENCV5" -> 5 [] m = "OPENCV8" -> 8 [] m = "OPENCV12" -> 12 [] OTHER -> 0 IN
  IF n > 0 THEN
     LET base == << <<1,16>>,<<-1,32>>,<<1,64>>,<<-1,32>>,<<1,64>>,<<-1,64>>,<<1,32>>,<<1,64>>,<<1,32>>,<<-1,64>>,<<1,64>>,<<1,32>> >> IN
     { [i \in 1..n |-> z], [i \in 1..n |-> base[i]] } \cup { [i \in 1..n |-> IF i = j THEN base[i] ELSE z] : j \in 1..n }
     \cup (IF Deep THEN { [i \in 1..n |-> IF i \in {j,l} THEN base[i] ELSE z] : j \in 1..n, l \in 1..n } ELSE {})
  ELSE IF m = "CAHVOR" THEN { <<z,z,z,z,z>>, <<z,z,<<1,8>>,z,z>>, <<z,z,z,<<1,16>>,z>>, <<z,z,z,z,<<-1,64>> >>, <<z,z,<<-1,16>>,<<1,16>>,<<1,128>> >> }
  ELSE IF m = "CAHVORX" THEN { <<I(2),z,<<1,8>>,z,z>>, <<I(2),z,<<1,16>>,<<1,32>>,<<1,256>> >> }
  ELSE {<<>>}
SPs(m) == IF m # "SPLINED" THEN {<<0,0,0,0>>} ELSE { <<3,7,5,0>>, <<3,11,9,2>>, <<3,6,6,5>>, <<2,6,5,1>>, <<2,10,8,3>>, <<2,5,6,4>> }
Ms == {"PINHOLE","OPENCV4","OPENCV5","OPENCV8","OPENCV12","CAHVOR","CAHVORX","CAHVORE0","CAHVORE1","CAHVORE5","CAHVOREG","STEREOGRAPHIC","LONLAT","LATLON","SPLINED"}
Cams == { [m |-> m, f |-> f, c |-> c, k |-> k, sp |-> sp] : m \in Ms, f \in Fs, c \in Cs, k \in UNION {KSets(mm) : mm \in Ms}, sp \in UNION {SPs(mm) : mm \in Ms} }
Dirs == { <<0,0,1>>,<<1,0,1>>,<<-2,1,2>>,<<1,2,2>>,<<-1,-2,2>>,<<2,-1,2>>,<<1,1,-2>>,<<0,1,2>>,<<2,2,1>>,
          <<6,-2,3>>,<<3,0,4>>,<<0,-4,3>>,<<4,0,-3>>,<<0,1,0>>,<<3,4,0>>,<<-4,3,0>>,<<2,1,-2>>,<<-1,0,0>>,<<-3,4,5>>,<<0,0,-1>>,<<-1,0,-1>>,<<1,0,-1>>,<<0,1,1>>,<<0,-1,1>>,<<1,1,0>>,<<-1,0,1>>,<<0,1,-1>>,<<1,-1,0>>,<<0,-1,0>> }
         \cup (IF Deep THEN { <<a,b,c>> : a \in -4..4, b \in -4..4, c \in {1,2,3,4,-3} } ELSE {})
VARIABLES cam, v
Init == /\ \E m \in Ms : \E f \in Fs, c \in Cs, k \in KSets(m), sp \in SPs(m) : cam = [m |-> m, f |-> f, c |-> c, k |-> k, sp |-> sp]
        /\ v = <<0,0,0>>
Next == /\ v = <<0,0,0>> /\ \E d \in Dirs : InDomain(cam.m,d) /\ v' = d
        /\ UNCHANGED cam
Laws == v # <<0,0,0>> =>
  LET q == Project(cam,v) IN
  \* the projection does not depend on the length
  /\ LET w == <<3*v[1],3*v[2],3*v[3]>> IN (Len3(v) >= 0 /\ cam.m = "SPLINED") \/ cam.m # "SPLINED" => Project(cam,w) = q
  \* trivial distortions do nothing
  /\ (cam.m \in {"OPENCV4","OPENCV5","OPENCV8","OPENCV12","CAHVOR"} /\ (\A i \in 1..Len(cam.k) : cam.k[i] = Zero)) => Project([cam EXCEPT !.m = "PINHOLE"],v) = q
  \* the models are nested
  /\ (cam.m \in {"OPENCV4","OPENCV5","OPENCV8"}) => Project([cam EXCEPT !.m = "OPENCV12", !.k = [i \in 1..12 |-> IF i <= Len(cam.k) THEN cam.k[i] ELSE Zero]],v) = q
  \* a purely radial lens commutes with a rotation by 90 degrees about its axis
  /\ (cam.m \in {"PINHOLE","STEREOGRAPHIC","CAHVOR"}) => LET n == Normalized(cam,v) r == Normalized(cam,<<-v[2],v[1],v[3]>>) IN r = <<Neg(n[2]),n[1]>>
  \* splines: the basis is a partition of unity, and reproduces affine functions
  /\ (cam.m = "SPLINED") =>
       LET u == Stereographic(v)
           s == SplineWith(AffCtrl,cam.sp,u)
           ix == Knot(cam.sp,u[1],cam.sp[2])  iy == Knot(cam.sp,u[2],cam.sp[3]) IN
       /\ s.x = Add(Sub(ix,Scale(2,iy)),I(cam.sp[4]))
       /\ s.y = Add(Sub(Scale(2,ix),Scale(2,iy)),I(cam.sp[4]))
       /\ Cardinality(SplineSupport(v,cam.sp)) = (cam.sp[1]+1)*(cam.sp[1]+1)
RNum(s,i) == IF i > Len(s) THEN 0 ELSE s[i][1]*i
Hash == (Seed*7919 + v[1]*17 + v[2]*131 + v[3]*29 + RNum(cam.k,1)*3+RNum(cam.k,2)*5+RNum(cam.k,3)*7+RNum(cam.k,4)*11+RNum(cam.k,5)*13+RNum(cam.k,6)*19+RNum(cam.k,7)*23+RNum(cam.k,8)*37+ RNum(cam.k,9)*41+RNum(cam.k,12)*43 + cam.sp[2]*3 + cam.f[1][1]) % Stride
Export == (v # <<0,0,0>> /\ Hash = 0) => PrintT("CASE " \o ToJson([cam |-> cam, v |-> v, q |-> Project(cam,v)]))
=============================================================================
