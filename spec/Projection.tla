------------------------------ MODULE Projection ------------------------------
(* What the lens models mean: the exact pixel a direction is projected to. Numbers are
   rational; the models that need square roots or angles are specified on the directions
   where these are rational (integers lengths, multiples of 45 degrees). *)
EXTENDS Rat, FiniteSets
(* a camera is [m, f: <<fx,fy>>, c: <<cx,cy>>, k: sequence of rationals, sp: <<order,Nx,Ny,seed>>] *)

Sq(a) == Mul(a,a)
Core(cam,x,y) == << Add(Mul(cam.f[1],x),cam.c[1]), Add(Mul(cam.f[2],y),cam.c[2]) >>

(* ---- projections without parameters *)
Pinhole(v) == << Rt(v[1],v[3]), Rt(v[2],v[3]) >>
RECURSIVE ISqrt(_,_)
ISqrt(n,k) == IF k*k = n THEN k ELSE IF k*k > n THEN -1 ELSE ISqrt(n,k+1)
Len3(v) == ISqrt(v[1]*v[1]+v[2]*v[2]+v[3]*v[3],0)          \* -1 if irrational
Stereographic(v) == << Rt(2*v[1],Len3(v)+v[3]), Rt(2*v[2],Len3(v)+v[3]) >>
(* angles in units of 45 degrees *)
Atan8(y,x) == CASE y = 0 /\ x > 0 -> 0 [] y > 0 /\ x = y -> 1 [] y > 0 /\ x = 0 -> 2 [] y > 0 /\ x = -y -> 3
               [] y = 0 /\ x < 0 -> 4 [] y < 0 /\ x = y -> -3 [] y < 0 /\ x = 0 -> -2 [] y < 0 /\ x = -y -> -1 [] OTHER -> 99
Asin8(y,x,z) == CASE y = 0 -> 0 [] x = 0 /\ z = 0 -> 2*RSgn(y) [] y*y = x*x+z*z -> RSgn(y) [] OTHER -> 99
LonLat8(v) == << IF v[1] = 0 /\ v[3] = 0 THEN 0 ELSE Atan8(v[1],v[3]), Asin8(v[2],v[1],v[3]) >>
LatLon8(v) == << Asin8(v[1],v[2],v[3]), IF v[2] = 0 /\ v[3] = 0 THEN 0 ELSE Atan8(v[2],v[3]) >>

(* ---- OpenCV: k1 k2 p1 p2 k3 k4 k5 k6 s1 s2 s3 s4 *)
OpenCV(v,kk) ==
  LET k(i) == IF i <= Len(kk) THEN kk[i] ELSE Zero
      x == Rt(v[1],v[3])  y == Rt(v[2],v[3])
      r2 == Add(Sq(x),Sq(y))  r4 == Sq(r2)  r6 == Mul(r4,r2)
      num == SumR(<<One,Mul(k(1),r2),Mul(k(2),r4),Mul(k(5),r6)>>)
      den == SumR(<<One,Mul(k(6),r2),Mul(k(7),r4),Mul(k(8),r6)>>)
      rad == Div(num,den)
      xy2 == Scale(2,Mul(x,y))
  IN << SumR(<<Mul(x,rad), Mul(k(3),xy2), Mul(k(4),Add(r2,Scale(2,Sq(x)))), Mul(k(9),r2), Mul(k(10),r4)>>),
        SumR(<<Mul(y,rad), Mul(k(3),Add(r2,Scale(2,Sq(y)))), Mul(k(4),xy2), Mul(k(11),r2), Mul(k(12),r4)>>) >>

(* ---- CAHVOR: k = <<alpha8, beta8, r0, r1, r2>>; the axis o is along z (alpha8 = 0) or x (alpha8 = 2) *)
Cahvor(v,k) ==
  LET ax == IF k[1][1] = 0 THEN 3 ELSE 1
      w  == v[ax]
      n2 == v[1]*v[1]+v[2]*v[2]+v[3]*v[3]
      tau == Rt(n2 - w*w, w*w)
      mu == SumR(<<k[3],Mul(k[4],tau),Mul(k[5],Sq(tau))>>)
      p(i) == IF i = ax THEN I(v[i]) ELSE Scale(v[i],Add(One,mu))
  IN << Div(p(1),p(3)), Div(p(2),p(3)) >>

(* ---- splined stereographic. A field of view of 180 degrees: u reaches +-2 at the edge *)
Margin(o) == IF o = 3 THEN 2 ELSE 1
SegPerU(sp) == Rt(sp[2]-1-Margin(sp[1]),4)
Ctrl(sp,i,j,xy) == ((i*(3+xy) + j*(5-2*xy) + i*j*(1+xy) + sp[4]) % 9) - 4       \* control points, times 64
AffCtrl(sp,i,j,xy) == (1+xy)*i - 2*j + sp[4]
Floor(a) == a[1] \div a[2]
Clamp(x,lo,hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
(* the numerators of the basis functions at a = n/d; their denominator is BDen *)
Basis(o,a) == LET n == a[1] d == a[2] IN
  IF o = 3 THEN << (d-n)*(d-n)*(d-n), 3*n*n*n-6*n*n*d+4*d*d*d, -3*n*n*n+3*n*n*d+3*n*d*d+d*d*d, n*n*n >>
           ELSE << (2*n-d)*(2*n-d), 6*d*d-8*n*n, (2*n+d)*(2*n+d) >>
BDen(o,a) == IF o = 3 THEN 6*a[2]*a[2]*a[2] ELSE 8*a[2]*a[2]
RECURSIVE SumI(_)
SumI(s) == IF s = <<>> THEN 0 ELSE Head(s)+SumI(Tail(s))
Knot(sp,u,N) == Add(Mul(u,SegPerU(sp)),Rt(N-1,2))
Cell(sp,ix,N) == IF sp[1] = 3 THEN Clamp(Floor(ix),1,N-3) ELSE Clamp(Floor(Add(ix,<<1,2>>)),1,N-2)
SplineWith(C(_,_,_,_),sp,u) ==
  LET ix == Knot(sp,u[1],sp[2])  iy == Knot(sp,u[2],sp[3])
      jx == Cell(sp,ix,sp[2])    jy == Cell(sp,iy,sp[3])
      ax == Sub(ix,I(jx))        ay == Sub(iy,I(jy))
      bx == Basis(sp[1],ax)      by == Basis(sp[1],ay)
      n == Len(bx)
      S(xy) == SumI([j \in 1..n |-> by[j] * SumI([i \in 1..n |-> bx[i]*C(sp,jx-2+i,jy-2+j,xy)])])
  IN [x |-> Mul(<<S(0),1>>,Mul(Rt(1,BDen(sp[1],ax)),Rt(1,BDen(sp[1],ay)))),
      y |-> Mul(<<S(1),1>>,Mul(Rt(1,BDen(sp[1],ax)),Rt(1,BDen(sp[1],ay)))), jx |-> jx, jy |-> jy]
Splined(v,sp) == LET u == Stereographic(v)  s == SplineWith(Ctrl,sp,u) IN
   << Add(u[1],Mul(s.x,<<1,64>>)), Add(u[2],Mul(s.y,<<1,64>>)) >>
(* the control points the projection of v depends on: their linear indices *)
SplineSupport(v,sp) == LET s == SplineWith(Ctrl,sp,Stereographic(v)) n == sp[1]+1 IN
   { 2*((s.jy-1+j)*sp[2] + (s.jx-1+i)) : i \in 0..(n-1), j \in 0..(n-1) }

(* the direction is one on which the model is exact here *)
InDomain(m,v) ==
  CASE m = "PINHOLE" -> v[3] # 0
    [] m \in {"OPENCV4","OPENCV5","OPENCV8","OPENCV12"} -> v[3] # 0 /\ RAbs(v[3]) <= 2 /\ RAbs(v[1]) <= 2 /\ RAbs(v[2]) <= 2
    [] m = "CAHVOR"  -> v[3] > 0
    [] m = "CAHVORX" -> v[3] # 0 /\ v[1] > 0
    [] m \in {"CAHVORE1","CAHVOREG"} -> v[3] > 0
    [] m \in {"STEREOGRAPHIC","SPLINED","CAHVORE5"} -> Len3(v) > 0 /\ Len3(v)+v[3] > 0 /\ (m = "CAHVORE5" => v[3] > 0)
    [] m = "CAHVORE0" -> v[3] > 0 /\ LonLat8(v)[1] # 99 /\ v[2] = 0
    [] m = "LONLAT" -> LonLat8(v)[1] # 99 /\ LonLat8(v)[2] # 99 /\ ~(v[1] = 0 /\ v[3] = 0)
    [] m = "LATLON" -> LatLon8(v)[1] # 99 /\ LatLon8(v)[2] # 99 /\ ~(v[2] = 0 /\ v[3] = 0)
(* normalized coordinates; the focal lengths of the angular models are per 45 degrees *)
Normalized(cam,v) ==
  CASE cam.m \in {"PINHOLE","CAHVORE1","CAHVOREG"} -> Pinhole(v)     \* (G: no exact value is known)
    [] cam.m \in {"OPENCV4","OPENCV5","OPENCV8","OPENCV12"} -> OpenCV(v,cam.k)
    [] cam.m \in {"CAHVOR","CAHVORX"} -> Cahvor(v,cam.k)
    [] cam.m \in {"STEREOGRAPHIC","CAHVORE5"} -> Stereographic(v)
    [] cam.m = "SPLINED" -> Splined(v,cam.sp)
    [] cam.m \in {"LONLAT","CAHVORE0"} -> LET a == LonLat8(v) IN <<I(a[1]),I(a[2])>>
    [] cam.m = "LATLON" -> LET a == LatLon8(v) IN <<I(a[1]),I(a[2])>>
Project(cam,v) == LET n == Normalized(cam,v) IN Core(cam,n[1],n[2])
=============================================================================
