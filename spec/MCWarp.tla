------------------------------- MODULE MCWarp -------------------------------
EXTENDS Warp, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Big(i,m) == (P(200 + i)*P(900 + 3*i) + P(500+2*i)) % m
Kind == <<"map","map","map","pin","pin","image","points">>[1 + Pick(1,7)]
Lenses == <<"PINHOLE","OPENCV4","OPENCV8","SPLINED","CAHVOR","LONLAT","LATLON","STEREOGRAPHIC">>
Quats == << <<1,0,0,0>>, <<1,0,0,0>>, <<1,0,0,1>>, <<3,1,0,0>>, <<3,0,-1,0>>, <<5,0,1,0>>, <<4,1,-1,0>>, <<3,0,0,1>>, <<0,0,0,1>>, <<5,1,1,1>> >>
(* small numbers, for exact results *)
Small(k) == [q |-> Quats[<<1,3,4,5,8,9>>[1 + Pick(k,6)]], t |-> <<Pick(k+1,5) - 2, Pick(k+2,5) - 2, Pick(k+3,5) - 2>>, d |-> 1]
PoseAt(k) == [q |-> Quats[1 + Pick(k,10)], t |-> <<Pick(k+1,5) - 2, Pick(k+2,5) - 2, Pick(k+3,5) - 2>>, d |-> 1]
(* nearly not rotated *)
Tiny == << <<200,1,0,0>>, <<200,0,-1,0>>, <<300,1,1,0>>, <<100,0,0,1>>, <<1000,0,1,0>>, <<900,-1,0,1>> >>
Pin(k,w,h) == [f |-> 5 + Pick(k,9), g |-> 5 + Pick(k+1,9), x2 |-> w - 4 + Pick(k+2,9), y2 |-> h - 4 + Pick(k+3,7)]
MapCase == LET exact == Pick(2,2) mode == Pick(3,9) w == 5 + Pick(4,5) h == 4 + Pick(5,4) po(k) == IF exact = 1 THEN Small(k) ELSE PoseAt(k) IN
   [kind |-> "map", exact |-> exact, from |-> IF exact = 1 THEN "PINHOLE" ELSE Lenses[1 + Pick(6,8)], to |-> IF exact = 1 \/ Pick(7,2) = 0 THEN "PINHOLE" ELSE Lenses[1 + Pick(8,8)],
    pinfrom |-> Pin(10,60,40), pinto |-> Pin(15,w,h), w |-> w, h |-> h, posefrom |-> IF exact = 0 /\ Pick(26,5) = 0 THEN [po(20) EXCEPT !.q = Tiny[1 + Pick(27,6)]] ELSE po(20), poseto |-> IF exact = 0 /\ Pick(26,5) = 0 THEN Identity ELSE IF Pick(24,4) = 0 THEN po(20) ELSE po(25),
    intronly |-> IF mode \in {0,1,7} THEN 1 ELSE 0, hasdist |-> IF mode \in {2,3,8} THEN 1 ELSE 0, hasn |-> IF mode \in {4,5} \/ (mode \in {7,8} /\ Pick(30,2) = 0) THEN 1 ELSE 0,
    hasd |-> IF mode \in {4,5} \/ (mode \in {7,8} /\ Pick(30,3) = 0) THEN 1 ELSE 0,
    n |-> <<Pick(31,5) - 2, Pick(32,5) - 2, <<1,2,3,-1,-2,4>>[1 + Pick(33,6)]>>, d |-> <<10,20,7,-10,-20,35>>[1 + Pick(34,6)], dist |-> 3 + Pick(35,30),
    mask |-> IF Pick(36,4) = 0 THEN 1 ELSE 0, rect |-> <<2*Pick(37,20)+1, 2*Pick(38,15)+1, 61 + 2*Pick(39,25), 41 + 2*Pick(40,15)>>]
FitKinds == <<"none","corners","centers-horizontal","centers-vertical","points","points","corners">>
PinCase == LET w == 30 + Pick(2,40) h == 20 + Pick(3,30) pinhole == Pick(4,2) IN
   [kind |-> "pin", lens |-> IF pinhole = 1 THEN "PINHOLE" ELSE <<"OPENCV4","OPENCV8","CAHVOR","STEREOGRAPHIC">>[1 + Pick(5,4)], w |-> w, h |-> h,
    pin |-> [f |-> w + Pick(6,9), g |-> w + Pick(7,9), x2 |-> IF pinhole = 1 THEN CASE Pick(8,6) = 0 -> 0 [] Pick(8,6) = 1 -> w-1 [] OTHER -> Pick(9,2*w-2) ELSE w - 5 + Pick(9,9),
             y2 |-> IF pinhole = 1 THEN CASE Pick(10,6) = 0 -> 0 [] Pick(10,6) = 1 -> h-1 [] OTHER -> Pick(11,2*h-2) ELSE h - 5 + Pick(11,9)],
    pose |-> PoseAt(20), fit |-> IF Pick(12,15) = 0 THEN <<"bogus","badshape">>[1 + Pick(13,2)] ELSE FitKinds[1 + Pick(13,7)],
    points |-> [i \in 1..(1 + Pick(14,6)) |-> <<Big(i,2*w-1),Big(20+i,2*h-1)>>], lead |-> Pick(15,3),
    scalen |-> IF Pick(16,4) = 0 THEN 1 + Pick(17,12) ELSE 0, sn |-> IF Pick(18,2) = 0 THEN 0 ELSE 1 + Pick(19,9), sd |-> <<1,2,3,4,10>>[1 + Pick(24,5)], direct |-> Pick(25,3)]
ImageCase == LET w == 1 + Pick(2,6) h == 1 + Pick(3,5) ch == IF Pick(4,3) = 0 THEN 3 ELSE 1 mw == 1 + Pick(5,5) mh == 1 + Pick(6,4) near == Pick(7,2) = 0 IN
   [kind |-> "image", w |-> w, h |-> h, ch |-> ch, dtype |-> <<"uint8","uint8","uint16","float32","float64">>[1 + Pick(8,5)], mw |-> mw, mh |-> mh,
    pix |-> [i \in 1..(w*h*ch) |-> Big(i,250)], map |-> [i \in 1..(mw*mh) |-> LET x == Big(300+i,2*w + 8) - 4 y == Big(340+i,2*h+8) - 4 IN IF near THEN <<2*(x \div 2),2*(y \div 2)>> ELSE <<x,y>>],
    nearest |-> IF near THEN Pick(9,2) ELSE 0, border |-> <<"default","default","replicate">>[1 + Pick(10,3)], value |-> IF Pick(11,2) = 0 THEN 0 ELSE Pick(12,200), out |-> Pick(13,2),
    bad |-> IF Pick(14,12) = 0 THEN <<"image","map","maptype">>[1 + Pick(15,3)] ELSE "no"]
PointsCase == [kind |-> "points", from |-> Lenses[1 + Pick(2,8)], to |-> Lenses[1 + Pick(3,8)], posefrom |-> PoseAt(20), poseto |-> IF Pick(24,4) = 0 THEN PoseAt(20) ELSE PoseAt(25), intronly |-> Pick(4,2),
    pts |-> [i \in 1..(1 + Pick(5,5)) |-> <<Big(i,600),Big(20+i,400)>>], comments |-> Pick(6,3)]
Case == CASE Kind = "map" -> MapCase [] Kind = "pin" -> PinCase [] Kind = "image" -> ImageCase [] OTHER -> PointsCase
(* a point on the axis, with the center at the edge, has no scale *)
Good(c) == CASE c.kind = "pin" -> /\ c.pin.x2 <= 2*(c.w-1) /\ c.pin.y2 <= 2*(c.h-1)
                                  /\ c.sn > 0 => ScaledSize(c.w,c) > 0 /\ ScaledSize(c.h,c) > 0 /\ (c.sd \in {3,10} => 2*((c.w*c.sn) % c.sd) # c.sd /\ 2*((c.h*c.sn) % c.sd) # c.sd)
                                  /\ ~PinRefused(c) /\ c.lens = "PINHOLE" /\ c.fit # "none" => FitScale(c)[1] > 0
                                  /\ c.direct > 0 => c.fit # "badshape"
                                  /\ c.direct = 1 => c.scalen = 0
             [] c.kind = "map" -> ~MapRefused(c) /\ Mode(c) = "plane" => LET T == Used(c) IN c.d*T.d # Dot(c.n,T.t)
             [] c.kind = "image" -> c.value > 0 => c.border = "default" /\ c.ch = 1
             [] OTHER -> TRUE
Refused(c) == CASE c.kind = "map" -> MapRefused(c) [] c.kind = "pin" -> PinRefused(c) [] c.kind = "image" -> c.bad # "no" [] OTHER -> FALSE
Extra(c) == CASE c.kind = "map" -> IF MapRefused(c) THEN [mode |-> "none"] ELSE [mode |-> Mode(c), used |-> Used(c)]
              [] c.kind = "points" -> [used |-> IF c.intronly = 1 THEN Identity ELSE [Compose(c.poseto,Invert(c.posefrom)) EXCEPT !.t = <<0,0,0>>, !.d = 1]]
              [] OTHER -> [mode |-> "none"]
Laws == LET c == Case IN Good(c) =>
   CASE c.kind = "map" /\ ~MapRefused(c) ->
          /\ Mode(c) \in {"distance","plane"} => TransformR(Used(c),c.poseto.t,c.poseto.d) = ReduceV(c.posefrom.t,c.posefrom.d)
          (* what is seen lies on the plane *)
          /\ c.exact = 1 /\ Mode(c) = "plane" => \A x \in 0..1 : LET v == Ray(c.pinto,x,0) s == Seen(c,v) IN
                s # <<0,0,0>> => LET T == Used(c) a == Dot(c.n,MV(Mat(T.q),v)) IN Dot(c.n,s) = c.d*T.d*Abs(a)
          (* the same camera sees itself *)
          /\ c.exact = 1 /\ Mode(c) = "intrinsics" => PixelOf(c.pinto,Ray(c.pinto,2,1)) = <<2000,1000>>
     [] c.kind = "pin" /\ ~PinRefused(c) /\ c.fit # "none" /\ c.lens = "PINHOLE" ->
          (* all points are inside, and one is on the edge *)
          LET s == FitScale(c) IN s[1] # 1000000 =>
            \A i \in DOMAIN FitPoints(c) : LET p == FitPoints(c)[i] X == (p[1]-c.pin.x2)*s[1] + c.pin.x2*s[2] Y == (p[2]-c.pin.y2)*s[1] + c.pin.y2*s[2] IN
              X >= 0 /\ X <= 2*(c.w-1)*s[2] /\ Y >= 0 /\ Y <= 2*(c.h-1)*s[2]
     [] c.kind = "image" -> \A i \in DOMAIN c.map : \A k \in 1..c.ch : Sampled4(c,c.map[i],k) \in 0..1000
     [] OTHER -> TRUE
Export == Good(Case) => PrintT("CASE " \o ToJson([c |-> Case, x |-> Extra(Case), refused |-> IF Refused(Case) THEN 1 ELSE 0]))
Init == n \in 1..N
Next == FALSE /\ n' = n
=============================================================================
