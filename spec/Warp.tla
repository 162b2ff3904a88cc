-------------------------------- MODULE Warp --------------------------------
(* Reprojecting images: which transformation takes directions of the output camera to those of the input
   camera, what each output pixel of a pinhole camera sees exactly, the pinhole models made to fit some
   pixels, and what an image becomes when a map is applied to it. *)
EXTENDS Pose
(* ---- maps ----
   c.intronly, c.hasdist, c.hasn, c.hasd (the parts of the plane that were given) *)
MapRefused(c) ==
   \/ c.hasn # c.hasd
   \/ c.hasn = 1 /\ c.intronly = 1
   \/ c.hasdist = 1 /\ (c.hasn = 1 \/ c.hasd = 1 \/ c.intronly = 1)
Mode(c) == IF c.hasn = 1 THEN "plane" ELSE IF c.intronly = 1 THEN "intrinsics" ELSE IF c.hasdist = 1 THEN "distance" ELSE "infinity"
(* output camera -> input camera *)
ToFrom(c) == Compose(c.posefrom,Invert(c.poseto))
Used(c) == CASE Mode(c) = "intrinsics" -> Identity
             [] Mode(c) = "infinity" -> [ToFrom(c) EXCEPT !.t = <<0,0,0>>, !.d = 1]
             [] OTHER -> ToFrom(c)
(* pinhole cameras: [f, g, x2, y2]: focal lengths, and twice the center *)
Ray(p,x,y) == << (2*x - p.x2)*p.g, (2*y - p.y2)*p.f, 2*p.f*p.g >>
Dot(a,b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
(* the point a ray of the output camera ends in, up to a positive scale, in the input camera; <<0,0,0>>: nowhere *)
Seen(c,v) == LET T == Used(c) m == MV(Mat(T.q),v) a == Dot(c.n,m) num == c.d*T.d - Dot(c.n,T.t) IN
   IF Mode(c) # "plane" THEN m
   ELSE IF a = 0 \/ num = 0 \/ (num > 0) # (a > 0) THEN <<0,0,0>>      \* parallel, or behind the output camera
   ELSE LET s == Sgn(a) IN [i \in 1..3 |-> s*(num*m[i] + T.t[i]*a)]
Milli(f,x,z) == LET s == 1 + (z \div 1000000) X == IF x < 0 THEN -((-x) \div s) ELSE x \div s Z == z \div s
                    q == (f*X) \div Z r == (f*X) % Z IN 1000*q + (1000*r) \div Z
(* in thousandths of a pixel; FALSE: not in front of the input camera, or far outside *)
Visible(v) == v[3] > 0 /\ Abs(v[1]) < 50*v[3] /\ Abs(v[2]) < 50*v[3] /\ Abs(v[1]) < 100000000 /\ Abs(v[2]) < 100000000
PixelOf(p,v) == << Milli(p.f,v[1],v[3]) + 500*p.x2, Milli(p.g,v[2],v[3]) + 500*p.y2 >>
(* ---- pinhole models ----  c.w, c.h: of the imager; c.sn/c.sd: scale of the image *)
PinRefused(c) == c.fit = "bogus" \/ c.fit = "badshape" \/ (c.fit # "none" /\ c.scalen > 0)
FitPoints(c) == CASE c.fit = "corners" -> << <<0,0>>, <<0,2*(c.h-1)>>, <<2*(c.w-1),2*(c.h-1)>>, <<2*(c.w-1),0>> >>
                  [] c.fit = "centers-horizontal" -> << <<0,c.h-1>>, <<2*(c.w-1),c.h-1>> >>
                  [] c.fit = "centers-vertical" -> << <<c.w-1,0>>, <<c.w-1,2*(c.h-1)>> >>
                  [] OTHER -> c.points                                      \* all in half pixels
(* the scale at which a point of a pinhole camera lands on the edge: a fraction; <<1000000,1>>: never *)
Edge(u2,c2,size) == IF u2 > 0 THEN <<2*(size-1) - c2, u2>> ELSE IF u2 < 0 THEN <<c2,-u2>> ELSE <<1000000,1>>
LessF(a,b) == LET s == 1 IN a[1]*b[2] < b[1]*a[2]
Scales(c) == LET P == FitPoints(c) IN {Edge(P[i][1] - c.pin.x2,c.pin.x2,c.w) : i \in DOMAIN P} \cup {Edge(P[i][2] - c.pin.y2,c.pin.y2,c.h) : i \in DOMAIN P}
FitScale(c) == LET S == {s \in Scales(c) : s[1] # 1000000} IN IF S = {} THEN <<1000000,1>> ELSE CHOOSE s \in S : \A t \in S : ~LessF(t,s)
FocalScale(c) == IF c.scalen > 0 THEN <<c.scalen,4>> ELSE IF c.fit = "none" THEN <<1,1>> ELSE FitScale(c)
(* round to the nearest, ties to even *)
RoundE(a,b) == LET q == a \div b r == a % b IN IF 2*r > b \/ (2*r = b /\ q % 2 = 1) THEN q + 1 ELSE q
ScaledSize(n,c) == RoundE(n*c.sn,c.sd)
(* 4*sd times the new center: what is half a pixel outside of the corner stays there *)
ScaledCenter4(c2,c) == 2*(c2 + 1)*c.sn - 2*c.sd
(* ---- applying a map ---- c.map: half pixels <<x,y>>; c.pix rows of c.w pixels of c.ch numbers *)
At(c,x,y,k) == IF c.border = "replicate" THEN LET X == IF x < 0 THEN 0 ELSE IF x >= c.w THEN c.w-1 ELSE x Y == IF y < 0 THEN 0 ELSE IF y >= c.h THEN c.h-1 ELSE y IN c.pix[(Y*c.w + X)*c.ch + k]
               ELSE IF x \in 0..(c.w-1) /\ y \in 0..(c.h-1) THEN c.pix[(y*c.w + x)*c.ch + k] ELSE c.value
(* 4 times the number *)
Sampled4(c,m,k) == LET x == m[1] \div 2 y == m[2] \div 2 dx == m[1] % 2 dy == m[2] % 2 IN
   At(c,x,y,k) + At(c,x+dx,y,k) + At(c,x,y+dy,k) + At(c,x+dx,y+dy,k)
=============================================================================
