--------------------------- MODULE MCRegularization ---------------------------
EXTENDS Regularization, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
M(name,kind,nd,nx,ny) == [name |-> name, kind |-> kind, nd |-> nd, nx |-> nx, ny |-> ny]
Models == << M("LENSMODEL_PINHOLE","none",0,0,0), M("LENSMODEL_STEREOGRAPHIC","none",0,0,0), M("LENSMODEL_LATLON","none",0,0,0), M("LENSMODEL_OPENCV4","opencv",4,0,0), M("LENSMODEL_OPENCV5","opencv",5,0,0),
  M("LENSMODEL_OPENCV8","opencv",8,0,0), M("LENSMODEL_OPENCV12","opencv",12,0,0), M("LENSMODEL_CAHVOR","cahvor",5,0,0), M("LENSMODEL_CAHVORE_linearity=0.37","cahvor",8,0,0),
  M("LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=120","splined",40,5,4), M("LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=5_fov_x_deg=120","splined",50,5,5),
  M("LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=3_Ny=3_fov_x_deg=100","splined",18,3,3), M("LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=3_fov_x_deg=140","splined",36,6,3) >>
NC == 1 + Pick(2,3)
NE == Pick(3,3)
Case == Models[1 + Pick(1,Len(Models))] @@
  [ d |-> [i \in 1..NC |-> [j \in 1..60 |-> Pick(100*i+j,41)-20]], center |-> [i \in 1..NC |-> << 4000 + Pick(10+i,200) - 100, 3000 + Pick(20+i,200) - 100 >>],
    size |-> [i \in 1..NC |-> << 2000 + 10*Pick(30+i,9), 1500 + Pick(40+i,9) >>], t |-> [k \in 1..NE |-> << Pick(50+k,15)-7, Pick(60+k,15)-7, Pick(70+k,15)-7 >>],
    core |-> Pick(4,2), dist |-> IF Pick(5,4) = 0 THEN 0 ELSE 1, ext |-> IF Pick(6,4) = 0 THEN 0 ELSE 1, reg |-> Pick(7,3), unity |-> Pick(8,2), nf |-> 1 + Pick(9,2) ]
Cut == LET c == Case IN [c EXCEPT !.d = [i \in DOMAIN @ |-> SubSeq(@[i],1,c.nd)]]
Init == n \in 1..N
Next == FALSE /\ n' = n
Laws == LET c == Cut t == Terms(c) r == Terms(Rest(c)) IN
  /\ Len(t) = (IF c.reg = 0 THEN 0 ELSE NCam(c)*((IF c.dist = 1 THEN c.nd ELSE 0) + 2*c.core)) + (IF c.unity = 1 /\ c.ext = 1 /\ c.t # <<>> THEN 1 ELSE 0)
  /\ \A k \in DOMAIN r : r[k][1] = 0
  /\ Seen(c)
Export == PrintT("CASE " \o ToJson([c |-> Cut, terms |-> Terms(Cut)]))
=============================================================================
