-------------------------------- MODULE Diff --------------------------------
(* Comparing the projections of models: which transformation relates them, which points
   take part in finding it, what is refused, and the shape of what is returned. *)
EXTENDS Pose
(* ---- projection_diff() ----
   c.models: lens kinds; c.poses: their poses (cam <- ref); c.dist: <<>> (infinity) or distances;
   c.list: the distances were given as a list; c.how: what the caller asked for *)
Noncentral(m) == m = "CAHVORE"
(* "intrinsics": identity; "extrinsics": that of the models; "given"; otherwise it is fitted *)
DiffRefused(c) ==
   \/ Len(c.models) < 2
   \/ Len(c.models) > 2 /\ c.given = 1
   \/ c.sizes = "differ"
   \/ (\E i \in DOMAIN c.models : Noncentral(c.models[i])) /\ (c.dist # <<>> \/ c.unc # "off")
Source(c) == IF c.given = 1 THEN "given" ELSE IF c.intronly = 1 THEN "identity" ELSE IF c.radius = "zero" THEN "extrinsics" ELSE "fit"
(* what is known about the transformation from camera 0 to camera i: the cameras of fitted cases
   are constructed to have an exact answer: c.turn[i] *)
Relative(c,i) == CASE Source(c) = "given" -> c.givenpose
                   [] Source(c) = "identity" -> Identity
                   [] Source(c) = "extrinsics" -> Compose(c.poses[i],Invert(c.poses[1]))
                   [] OTHER -> c.turn[i]
(* at infinity only directions exist *)
Used(c,i) == LET p == Relative(c,i) IN IF c.dist = <<>> THEN [p EXCEPT !.t = <<0,0,0>>, !.d = 1] ELSE p
Round(a,b) == (2*a + b) \div (2*b)
Tie(a,b) == (2*a + b) % (2*b) = 0
Rows(c) == IF c.gh > 0 THEN c.gh ELSE Round(c.size[2]*c.gw,c.size[1])
Lead(c) == IF c.list = 1 THEN <<Len(c.dist)>> ELSE <<>>
DiffShape(c) == Lead(c) \o <<Rows(c),c.gw>>
(* ---- implied_Rt10__from_unprojections() ----
   a grid c.gw x c.gh of pixels at 10*<<x,y>>; each has a quality: "good": it fits the
   transformation, "bad": it does not, "nan"; c.w: 0 no weights, otherwise weights are given: 0 for
   whatever is bad *)
InFocus(c,x,y) == LET dx == 10*x - c.center[1]  dy == 10*y - c.center[2] IN dx*dx + dy*dy < c.radius*c.radius
Focus(c) == {p \in (0..(c.gw-1)) \X (0..(c.gh-1)) : InFocus(c,p[1],p[2])}
Matters(c,p) == p \in Focus(c) /\ c.grid[p[2]*c.gw + p[1] + 1] # "nan" /\ (c.weights # "none" => c.grid[p[2]*c.gw + p[1] + 1] # "bad")
FitRefused(c) == Cardinality(Focus(c)) < 3
(* the points that matter are good, and in general position *)
Spread(s) == \E a \in s, b \in s, d \in s : (b[1]-a[1])*(d[2]-a[2]) # (b[2]-a[2])*(d[1]-a[1])
FitKnown(c) == LET m == {p \in Focus(c) : Matters(c,p)} IN
   Cardinality(m) >= 12 /\ Spread(m) /\ \A p \in m : c.grid[p[2]*c.gw + p[1] + 1] = "good"
FitPose(c) == IF c.inf = 1 THEN [c.pose EXCEPT !.t = <<0,0,0>>, !.d = 1] ELSE c.pose
(* ---- stereo_pair_diff(): c.models[p][i], c.poses[p][i] *)
PairRefused(c) ==
   \/ c.npairs # 2
   \/ c.sizes = "differ"
   \/ (\E p \in 1..2 : \E i \in 1..2 : Noncentral(c.models[p][i])) /\ c.dist # <<>>
PairUsed(c,p,i) == LET r == Compose(c.poses[p][3-i],Invert(c.poses[p][i])) IN IF c.dist = <<>> THEN [r EXCEPT !.t = <<0,0,0>>, !.d = 1] ELSE r
(* ---- model_resolution__deg_pixel(): the sensitivities of the pixel to rotations of the ray, in
   pixels per radian, as rationals <<n,d>>, in the two principal directions *)
Frac(a,b) == LET g == Gcd(a,b) IN <<a \div g, b \div g>>
Less(a,b) == a[1]*b[2] < b[1]*a[2]
(* a ray is given by exact numbers: pinhole: the direction (x/z,0,1), x^2+z^2 = h^2;
   stereographic: the pixel is at a distance of 2 f x/z from the center;
   lonlat/latlon: cos = z/h *)
Sens(c) == LET x == c.tri[1] z == c.tri[2] h == c.tri[3] IN
   CASE c.lens = "PINHOLE" -> <<Frac(c.f*h*h,z*z), Frac(c.f*h,z)>>
     [] c.lens = "STEREOGRAPHIC" -> <<Frac(c.f*(z*z + x*x),z*z), Frac(c.f*(z*z + x*x),z*z)>>
     [] OTHER -> <<Frac(c.f*h,z), Frac(c.g,1)>>
SensMax(c) == LET s == Sens(c) IN IF Less(s[1],s[2]) THEN s[2] ELSE s[1]
SensMin(c) == LET s == Sens(c) IN IF Less(s[1],s[2]) THEN s[1] ELSE s[2]
=============================================================================
