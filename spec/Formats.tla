------------------------------- MODULE Formats -------------------------------
(* A camera is a lens, focal lengths and center f = <<fx,fy,cx,cy>>, a pose (from the
   reference to the camera), an imager and a region. Each foreign format can describe
   some of this: these are the contents of the files, and what files mean. *)
EXTENDS Pose
Vec3(s,v,t,w) == [i \in 1..3 |-> s*v[i] + t*w[i]]
Dot3(a,b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
CanCahvor == {"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8","LENSMODEL_OPENCV12","LENSMODEL_CAHVOR","LENSMODEL_CAHVORE"}
CanRos == {"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8"}
CanKalibr == {"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_CAHVOR","LENSMODEL_CAHVORE"}
Cahvors == {"LENSMODEL_CAHVOR","LENSMODEL_CAHVORE"}
Ndist(l) == CASE l = "LENSMODEL_OPENCV4" -> 4 [] l = "LENSMODEL_OPENCV5" -> 5 [] l = "LENSMODEL_OPENCV8" -> 8 [] l = "LENSMODEL_OPENCV12" -> 12 [] OTHER -> 0

(* a camera: lens, lin (hundredths), f, o (a vector along the axis O, in the camera),
   r, e, dist (ten-thousandths), P, size, region *)
(* CAHVOR files: a vector is an integer vector over the scale that belongs to it: C over
   Invert(P).d, A, H, V over Norm2(P.q), O over Norm2(P.q)*|o| *)
FileOf(m) == LET M == Mat(m.P.q) I == Invert(m.P) IN
  [C |-> I.t, A |-> M[3], H |-> Vec3(m.f[1],M[1],m.f[3],M[3]), V |-> Vec3(m.f[2],M[2],m.f[4],M[3]), O |-> MV(Tr(M),m.o)]
(* without distortions CAHVOR is a pinhole model *)
AfterCahvor(m) == IF m.lens = "LENSMODEL_CAHVOR" /\ m.r = <<0,0,0>> THEN [m EXCEPT !.lens = "LENSMODEL_PINHOLE"] ELSE m
AfterRos(m) == [m EXCEPT !.lens = IF m.lens = "LENSMODEL_OPENCV8" THEN m.lens ELSE "LENSMODEL_OPENCV5", !.dist = m.dist \o [i \in 1..(IF m.lens = "LENSMODEL_OPENCV8" THEN 0 ELSE 5 - Len(m.dist)) |-> 0], !.P = Identity, !.region = "none"]

(* what can be observed of a camera *)
RegionV(r) == CASE r = "none" -> "none" [] r = "empty" -> "empty" [] OTHER -> "poly"
Seen(m) == [lens |-> m.lens, lin |-> IF m.lens = "LENSMODEL_CAHVORE" THEN m.lin ELSE -1, f |-> m.f,
  o |-> IF m.lens \in Cahvors THEN m.o ELSE <<0,0,0>>, r |-> IF m.lens \in Cahvors THEN m.r ELSE <<0,0,0>>, e |-> IF m.lens = "LENSMODEL_CAHVORE" THEN m.e ELSE <<0,0,0>>,
  dist |-> m.dist, R |-> Mat(m.P.q), t |-> [i \in 1..3 |-> Norm2(m.P.q)*m.P.t[i]], size |-> m.size, region |-> RegionV(m.region)]

(* edits of a file are <<what,key>> *)
Did(c,e) == \E i \in DOMAIN c.edits : c.edits[i] = e
DidAny(c,s) == \E i \in DOMAIN c.edits : c.edits[i][1] \in s
Must == {"Dimensions","C","A","H","V"}
InFile(m,k) == k \in Must \/ k = "Model" \/ (k \in {"O","R"} /\ m.lens \in Cahvors) \/ (k = "E" /\ m.lens = "LENSMODEL_CAHVORE")
(* the declaration of a CAHVORE model: the linearity in hundredths, -1 if invalid *)
Declared(d) == CASE d \in {"CAHVORE1","CAHVORE1,1"} -> 100
   [] d \in {"CAHVORE2","CAHVORE2,0"} -> 0
   [] d = "CAHVORE3,0.37 = general" -> 37
   [] d = "CAHVORE 3 , 0.5" -> 50
   [] OTHER -> -1
IsCahvore(d) == d \notin {"CAHVOR","CAHVORE","CAHV = perspective, linear"}
Decl(c) == LET e == SelectSeq(c.edits,LAMBDA x : x[1] = "model") IN IF Len(e) > 0 THEN e[1][2] ELSE IF Did(c,<<"drop","Model">>) THEN "CAHVOR" ELSE IF c.m.lens = "LENSMODEL_CAHVORE" THEN "CAHVORE3,0.37 = general" ELSE "CAHVOR"
Dropped(c,k) == Did(c,<<"drop",k>>) \/ ~InFile(c.m,k)
CahvorOk(c) ==
  /\ \A k \in Must : ~Dropped(c,k)
  /\ \A i \in DOMAIN c.edits : c.edits[i][1] \in {"short","long","text"} => (~InFile(c.m,c.edits[i][2]) \/ Did(c,<<"drop",c.edits[i][2]>>))
  /\ ~Did(c,<<"region","odd">>)
  /\ IF IsCahvore(Decl(c)) THEN Declared(Decl(c)) >= 0 /\ ~Dropped(c,"R") /\ ~Dropped(c,"E")
     ELSE (Dropped(c,"E") \/ Dropped(c,"R"))
CahvorRead(c) == LET
   m0 == [c.m EXCEPT !.o = IF Dropped(c,"O") THEN <<0,0,1>> ELSE c.m.o, !.region = IF Did(c,<<"region","poly">>) THEN "poly" ELSE IF Did(c,<<"region","empty">>) THEN "empty" ELSE c.m.region]
 IN IF c.m.lens \notin Cahvors THEN m0
    ELSE IF IsCahvore(Decl(c)) THEN [m0 EXCEPT !.lin = Declared(Decl(c))]
    ELSE IF Dropped(c,"R") THEN [m0 EXCEPT !.lens = "LENSMODEL_PINHOLE"]
    ELSE [m0 EXCEPT !.lens = "LENSMODEL_CAHVOR"]

(* ROS: the reference is the left rectified camera: the rotation takes the camera to it,
   and the projection matrix holds minus the position of the camera, by its focal length *)
RosOk(c) == ~DidAny(c,{"drop","dup","Rbad","Rshape","Pty","Pshape","Kskew","K22","lens","dshort","dlong"})
RosRead(c) == [c.m EXCEPT !.P = Invert([q |-> IF DidAny(c,{"Rnone","Rzero"}) THEN <<1,0,0,0>> ELSE c.m.P.q, t |-> <<IF DidAny(c,{"Pzero"}) THEN 0 ELSE c.b,0,0>>, d |-> 1]), !.region = "none"]

(* kalibr: a chain of cameras *)
Chain(c) == [i \in DOMAIN c.ms |-> IF i = 1 THEN (IF c.toref = 1 THEN Identity ELSE c.ms[1].P) ELSE Compose(c.ms[i].P,Invert(c.ms[i-1].P))]
(* the chain after the edits of the file *)
Chain2(c) == [i \in DOMAIN c.ms |-> IF Did(c,<<"drop","T_cn_cnm1">>) /\ i = c.which THEN Identity ELSE Chain(c)[i]]
(* what is written of a camera *)
Flat(F,m) == F.C \o F.A \o F.H \o F.V \o F.O \o m.r \o (IF m.lens = "LENSMODEL_CAHVORE" THEN m.e ELSE << >>)
Yaml(m) == [model |-> CASE m.lens = "LENSMODEL_CAHVOR" -> "cahvor" [] m.lens = "LENSMODEL_CAHVORE" -> "cahvore" [] OTHER -> "pinhole",
  d |-> CASE m.lens \in Cahvors -> "-" [] m.lens = "LENSMODEL_OPENCV4" -> "radtan" [] OTHER -> "none", D |-> m.dist, size |-> m.size, lin |-> IF m.lens = "LENSMODEL_CAHVORE" THEN m.lin ELSE -100,
  I |-> IF m.lens \in Cahvors THEN Flat(FileOf([m EXCEPT !.P = Identity]),m) ELSE m.f]
RECURSIVE Along(_,_)
Along(c,i) == IF i = 1 THEN (IF c.fromref = 1 THEN Identity ELSE Chain2(c)[1]) ELSE Compose(Chain2(c)[i],Along(c,i-1))
ToKalibr(c) == \A i \in DOMAIN c.ms : c.ms[i].lens \in CanKalibr
HasT(c,i) == i > 1 \/ Chain(c)[1] # Identity
NeedsKey(c,k) == LET m == c.ms[c.which] IN k \in {"camera_model","intrinsics","resolution"} \/ (k = "distortion_model" /\ m.lens \notin Cahvors) \/ (k = "distortion_coeffs" /\ m.lens = "LENSMODEL_OPENCV4")
FromKalibr(c) == /\ \A i \in DOMAIN c.edits : LET e == c.edits[i] IN
                      CASE e[1] = "drop" -> e[2] = "T_cn_cnm1" \/ ~NeedsKey(c,e[2])
                        [] e[1] \in {"Tshape","Tlast","Tnotrot"} -> ~HasT(c,c.which)
                        [] e[1] = "camera_model" -> FALSE
                        [] e[1] = "distortion_model" -> FALSE
                        [] e[1] = "intrinsics" -> FALSE
                        [] OTHER -> TRUE
                 /\ (c.stdin = 1 => (c.camera # "" \/ Len(c.ms) = 1))
                 /\ (c.inline = 1 => c.camera = "")
                 /\ (c.camera # "" => \E i \in DOMAIN c.ms : c.camera = <<"cam0","cam1","cam2">>[i])
KalibrRead(c,i) == [AfterCahvor(c.ms[i]) EXCEPT !.P = Along(c,i), !.region = "none"]
Wanted(c,i) == c.camera = "" \/ c.camera = <<"cam0","cam1","cam2">>[i]

(* converters of files: what is at the place of the output of each of their inputs *)
Outcome(c,i) == IF c.files[i].done = 1 THEN (IF c.files[i].exists = 1 THEN "old" ELSE "none")
                ELSE IF c.files[i].exists = 1 /\ c.force = 0 THEN "old" ELSE "new"
=============================================================================
