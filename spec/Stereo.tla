-------------------------------- MODULE Stereo --------------------------------
(* Two cameras, and the rectified pair that belongs to them: its axes, where it
   looks, how many pixels it has, and which point a disparity means. *)
EXTENDS Pose
Quarter(x) == (x + 2) \div 4              \* nearest integer to x/4 for x >= 0
(* the geometry is given in a frame W: the cameras are at the origin and at
   (b,0,0), their axes are the mirror images of each other in the plane y = 0, so the
   sum of their viewing directions has no component along y *)
Dir(c) == LET m == Mat(c.q0) IN <<m[1][3],m[2][3],m[3][3]>>
Q1(c) == MulQ(<<c.q0[1],-c.q0[2],c.q0[3],-c.q0[4]>>, <<c.roll[1],0,0,c.roll[2]>>)
(* x points from camera 0 to camera 1, z to the side the cameras look to *)
FlipQ(c) == LET fz == Dir(c)[3] < 0 IN
   IF c.b > 0 THEN (IF fz THEN <<0,1,0,0>> ELSE <<1,0,0,0>>) ELSE (IF fz THEN <<0,0,1,0>> ELSE <<0,0,0,1>>)
Flip(c) == [q |-> FlipQ(c), t |-> <<0,0,0>>, d |-> 1]
RectPose(c) == Compose(Flip(c),Gens[c.g])
Baseline(c) == Abs(c.b)
(* the direction of the sum of the viewing directions: (x,z) in the rectified frame *)
View(c) == LET f == Dir(c) IN << (IF c.b > 0 THEN 1 ELSE -1)*f[1], Abs(f[3]) >>

(* the azimuth of the center; angles in thousandths of a degree, have is that of View *)
InView(az,c) == az - 500*c.azfov > -90000 + 1000*c.margin - 1 /\ az + 500*c.azfov < 90000 - 1000*c.margin + 1
CenterAz(c,have) ==
   IF c.auto = 0 THEN 1000*c.az0
   ELSE IF InView(have,c) THEN have
   ELSE IF ~(have - 500*c.azfov > -90000 + 1000*c.margin - 1) THEN -90000 + 1000*c.margin + 500*c.azfov
   ELSE 90000 - 1000*c.margin - 500*c.azfov
Sees(c,have) == IF c.auto = 0 THEN InView(1000*c.az0,c) ELSE (InView(have,c) \/ c.azfov <= 180 - 2*c.margin)
Closest(c,have) == LET x == Abs(have - 500*c.azfov + 90000 - 1000*c.margin) y == Abs(have + 500*c.azfov - 90000 + 1000*c.margin) IN IF x < y THEN x ELSE y
Valid(c) == c.ppdaz # 0 /\ c.ppdel # 0 /\ c.azfov > 0 /\ c.elfov > 0 /\ c.rect \in {"LENSMODEL_LATLON","LENSMODEL_PINHOLE"} /\ c.central = 1 /\ c.b # 0

(* a pinhole pair with focal lengths (f,fy) and center (cx,cy): the disparity D/s at
   pixel (j,i) is the point Num/D *)
PinNum(c,i,j) == << Abs(c.b)*c.s*(j-c.cx), (Abs(c.b)*c.s*c.f*(i-c.cy)) \div c.fy, Abs(c.b)*c.s*c.f >>
(* limits of the disparities, <<kind,num>>: none; px: pixels; quarter: quarters of pixels; scaled: D itself. 4 times the limit of D: *)
Lim4(c,l) == CASE l[1] = "px" -> 4*l[2]*c.s [] l[1] = "quarter" -> l[2]*c.s [] OTHER -> 4*l[2]
AboveMin(c,D) == c.min[1] = "none" \/ 4*D >= Lim4(c,c.min)
BelowMax(c,D) == c.max[1] = "none" \/ 4*D <= Lim4(c,c.max)
Shown(c,D) == D > 0 /\ AboveMin(c,D) /\ BelowMax(c,D)
=============================================================================
