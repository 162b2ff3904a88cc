------------------------------- MODULE Residual -------------------------------
(* What is measured: where the chessboard corners and the discrete points are in the
   coordinates of the observing camera, exactly; which observations count. *)
EXTENDS Pose
(* rotations small enough to keep the board in view *)
RotsC == << <<1,0,0,0>>, <<5,0,1,0>>, <<6,1,-1,2>>, <<-4,0,0,1>> >>
TrsC  == << <<0,0,0>>, <<1,0,-1>>, <<-2,1,1>>, <<1,2,3>> >>
RotsF == << <<1,0,0,0>>, <<3,0,0,1>>, <<5,1,1,0>>, <<4,-1,1,1>>, <<0,0,0,1>> >>
TrsF  == << <<-1,-1,8>>, <<0,1,9>>, <<1,-1,12>>, <<-2,0,10>>, <<1,2,11>> >>
PoseC(i) == [q |-> RotsC[i], t |-> TrsC[i], d |-> 1]
PoseF(i) == [q |-> RotsF[i], t |-> TrsF[i], d |-> 1]
(* a board of W x H corners, spacing s/2; deflection at the center wx/8 along x, wy/8 along y: 4 k xr (1-xr) with xr = i/(W-1).
   A corner (or any other place, i and j may be fractions of den e) as a rational vector *)
Corner(b,i,j,e) ==
  LET dx == b.W-1 dy == b.H-1
      cx == IF dx = 0 THEN 0 ELSE i*(dx*e-i)
      cy == IF dy = 0 THEN 0 ELSE j*(dy*e-j)
      d == 2*e*e*(IF dx = 0 THEN 1 ELSE dx*dx)*(IF dy = 0 THEN 1 ELSE dy*dy)
      ddx == IF dx = 0 THEN 1 ELSE dx*dx  ddy == IF dy = 0 THEN 1 ELSE dy*dy
  IN IF b.wx = 0 /\ b.wy = 0 THEN ReduceV(<<b.s*i,b.s*j,0>>,2*e)
     ELSE ReduceV(<<b.s*i*e*ddx*ddy, b.s*j*e*ddx*ddy, b.wx*cx*ddy + b.wy*cy*ddx>>, d)
(* a point of the reference frame, in the coordinates of a camera; camera -1 is at the reference *)
ToCam(exts,ce,v,d) == IF ce < 0 THEN ReduceV(v,d) ELSE TransformR(PoseC(exts[ce+1]),v,d)
CornerInCam(p,o,i,j) == LET c == Corner(p.board,i,j,1)  r == TransformR(PoseF(p.frames[o[1]+1]),c.t,c.d) IN ToCam(p.exts,o[3],r.t,r.d)
PointInCam(p,o) == ToCam(p.exts,o[3],p.points[o[1]+1],1)
(* weights: an observation with a weight <= 0 is an outlier. It contributes nothing *)
Outlier(w) == w <= 0
Exp(p) == [ob |-> [n \in DOMAIN p.ob |-> [j \in 1..p.board.H |-> [i \in 1..p.board.W |-> CornerInCam(p,p.ob[n],i-1,j-1)]]],
           op |-> [n \in DOMAIN p.op |-> PointInCam(p,p.op[n])]]
(* the grid of ref_calibration_object(): N places from a to b, in corners *)
Place(a,b,N,k) == IF N = 1 THEN <<a,1>> ELSE <<a*(N-1) + (b-a)*k, N-1>>
Grid(g) == [y \in 1..g.Ny |-> [x \in 1..g.Nx |->
   LET u == Place(g.x0,g.x1,g.Nx,x-1) v == Place(g.y0,g.y1,g.Ny,y-1) IN Corner(g.board,u[1]*v[2],v[1]*u[2],u[2]*v[2])]]
(* which measurements (numbered in order, one per corner or point) are selected for a camera, -1: all of the cameras *)
SelB(p,cam) == LET W == p.board.W H == p.board.H IN
   SelectSeq([m \in 1..(Len(p.ob)*W*H) |-> m-1], LAMBDA m : LET o == m \div (W*H) IN ~Outlier(p.wb[m+1]) /\ (cam < 0 \/ p.ob[o+1][2] = cam))
SelP(p,cam) == SelectSeq([m \in 1..Len(p.op) |-> m-1], LAMBDA m : ~Outlier(p.wp[m+1]) /\ (cam < 0 \/ p.op[m+1][2] = cam))
OutB(p,cam) == LET W == p.board.W H == p.board.H IN
   SelectSeq([m \in 1..(Len(p.ob)*W*H) |-> m-1], LAMBDA m : LET o == m \div (W*H) IN Outlier(p.wb[m+1]) /\ (cam < 0 \/ p.ob[o+1][2] = cam))
=============================================================================
