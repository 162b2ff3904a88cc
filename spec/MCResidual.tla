------------------------------ MODULE MCResidual ------------------------------
EXTENDS Residual, SequencesExt, Json
CONSTANTS N, Seed
VARIABLES n
(* pseudo-random choices, a function of the number of the case *)
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m                                   \* 0..m-1
(* which (icam_intrinsics,icam_extrinsics) exist; in an order in which they may be observed *)
Rigs == << << <<0,-1>> >>, << <<0,0>> >>, << <<0,-1>>, <<1,0>> >>, << <<0,0>>, <<1,1>> >>, << <<0,-1>>, <<0,0>>, <<0,1>> >>, << <<0,-1>>, <<1,0>>, <<2,1>> >>, << <<0,0>>, <<0,1>>, <<1,1>> >> >>
NI == << 1,1,2,2,1,3,2 >>
NE == << 0,1,1,2,2,2,2 >>
Rig == 1 + Pick(1,7)
NF == Pick(2,4)                                          \* number of frames
NP == IF NF = 0 THEN 1 + Pick(3,3) ELSE Pick(3,4)
(* each frame is seen by some of the rig; by all in every other frame *)
Seen(f) == LET r == Rigs[Rig] S == {k \in DOMAIN r : Pick(10*f+k,3) > 0} IN IF S = {} THEN {1 + Pick(10*f,Len(r))} ELSE S
ObF(f) == LET r == Rigs[Rig] IN [k \in 1..Cardinality(Seen(f)) |-> LET c == r[SetToSortSeq(Seen(f),<)[k]] IN <<f-1,c[1],c[2]>>]
RECURSIVE Flat(_,_)
Flat(F(_),m) == IF m = 0 THEN <<>> ELSE Flat(F,m-1) \o F(m)
SeenP(f) == LET r == Rigs[Rig] S == {k \in DOMAIN r : Pick(100+10*f+k,3) > 0} IN IF S = {} THEN {1 + Pick(100+10*f,Len(r))} ELSE S
OpF(f) == LET r == Rigs[Rig] IN [k \in 1..Cardinality(SeenP(f)) |-> LET c == r[SetToSortSeq(SeenP(f),<)[k]] IN <<f-1,c[1],c[2]>>]
Ob == Flat(ObF,NF)
Op == Flat(OpF,NP)
W == 2 + Pick(4,3)
H == 2 + Pick(5,3)
(* weights in eighths; negative and zero ones are outliers *)
Wt(k) == <<8,8,8,4,16,3,0,-8,-3>>[1 + Pick(k,9)]
Prob == [ ni |-> NI[Rig], exts |-> [k \in 1..NE[Rig] |-> 1 + Pick(20+k,4)], frames |-> [k \in 1..NF |-> 1 + Pick(30+k,5)],
          points |-> [k \in 1..NP |-> << Pick(40+k,9)-4, Pick(50+k,9)-4, 9+Pick(60+k,7) >>], npf |-> Pick(70,NP+1),
          board |-> [W |-> W, H |-> H, s |-> 1 + Pick(6,3), wx |-> Pick(7,5)-2, wy |-> Pick(8,5)-2],
          ob |-> Ob, op |-> Op, wb |-> [m \in 1..(Len(Ob)*W*H) |-> Wt(200+m)], wp |-> [m \in 1..Len(Op) |-> Wt(1000+m)],
          lens |-> Pick(9,9), flags |-> [k \in 1..6 |-> Pick(80+k,2)], off |-> Pick(90,50), warpnone |-> Pick(91,4) ]
G == [board |-> Prob.board, x0 |-> Pick(92,3)-1, x1 |-> Pick(93,W+2), Nx |-> 1 + Pick(94,4), y0 |-> Pick(95,2), y1 |-> Pick(96,H+1), Ny |-> 1 + Pick(97,4)]
(* by how many pixels each observation is off *)
Err(p) == [b |-> [m \in 1..Len(p.wb) |-> << Pick(3000+m,7)-3, Pick(4000+m,9)-4 >>], p |-> [m \in 1..Len(p.wp) |-> << Pick(5000+m,7)-3, Pick(6000+m,9)-4 >>]]
Case == LET p == IF Prob.warpnone = 0 THEN [Prob EXCEPT !.board.wx = 0, !.board.wy = 0] ELSE Prob IN
   [p |-> p, exp |-> Exp(p), g |-> [G EXCEPT !.board = p.board], grid |-> Grid([G EXCEPT !.board = p.board]), e |-> Err(p),
    selb |-> [k \in 1..(p.ni+1) |-> SelB(p,k-2)], selp |-> [k \in 1..(p.ni+1) |-> SelP(p,k-2)], outb |-> [k \in 1..(p.ni+1) |-> OutB(p,k-2)] ]
Init == n \in 1..N
Next == FALSE /\ n' = n
(* the composed transformation puts the corners where the two transformations one after the other do *)
Laws == LET p == Prob IN
  /\ \A k \in DOMAIN p.ob : LET o == p.ob[k] c == Corner(p.board,p.board.W-1,1,1)
        T == IF o[3] < 0 THEN PoseF(p.frames[o[1]+1]) ELSE Compose(PoseC(p.exts[o[3]+1]),PoseF(p.frames[o[1]+1])) IN
        TransformR(T,c.t,c.d) = CornerInCam(p,o,p.board.W-1,1)
  /\ \A k \in DOMAIN p.op : PointInCam(p,p.op[k]).t[3] > 0                       \* in front of the camera
  /\ \A e \in 1..3 : Corner(p.board,e*(p.board.W-1),0,e) = Corner(p.board,p.board.W-1,0,1)
  (* the edges of the corners don't move with the warp *)
  /\ \A i \in {0,p.board.W-1}, j \in {0,p.board.H-1} : Corner(p.board,i,j,1).t[3] = 0
  /\ Len(SelB(p,-1)) + Len(OutB(p,-1)) = Len(p.wb)
Export == PrintT("CASE " \o ToJson(Case))
=============================================================================
