------------------------------- MODULE Layout -------------------------------
(* The optimization problem that mrcal.optimize() solves, seen as a layout: which
   variable sits where in the state vector b, which quantity sits where in the
   measurement vector x, and which columns each measurement row may depend on.

   A problem description c is a record
     model  lens model name          ncore, nd  core / distortion parameter counts
     sp     <<order,Nx,Ny>> of a splined model, <<0,0,0>> otherwise
     ncam, next, nf, np, npf         cameras, extrinsics, frames, points, fixed points
     W, H                            chessboard dimensions
     core, dist, ext, frames, warp, reg, unity   0/1 problem selections
     ob     board observations <<frame, icam_intrinsics, icam_extrinsics>>
     op     point observations <<point, icam_intrinsics, icam_extrinsics>>
     tri    triangulated features, each a sequence of <<icam_intrinsics, icam_extrinsics>> *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

B(x) == x # 0
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Max2(a,b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* State vector *)
NIntr(c)       == (IF B(c.core) THEN c.ncore ELSE 0) + (IF B(c.dist) THEN c.nd ELSE 0)
NStIntr(c)     == c.ncam * NIntr(c)
NStExt(c)      == IF B(c.ext) THEN 6*c.next ELSE 0
NStFrames(c)   == IF B(c.frames) THEN 6*c.nf ELSE 0
NVarPoints(c)  == c.np - c.npf
NStPoints(c)   == IF B(c.frames) THEN 3*NVarPoints(c) ELSE 0
HasWarp(c)     == B(c.warp) /\ Len(c.ob) > 0
NStWarp(c)     == IF HasWarp(c) THEN 2 ELSE 0
NStates(c)     == NStIntr(c) + NStExt(c) + NStFrames(c) + NStPoints(c) + NStWarp(c)

(* -1: "not in the state vector" (the Python functions return None) *)
IdxIntr(c,i)   == IF NIntr(c) = 0 \/ i < 0 \/ i >= c.ncam THEN -1 ELSE i*NIntr(c)
IdxExt(c,i)    == IF ~B(c.ext) \/ i < 0 \/ i >= c.next THEN -1 ELSE NStIntr(c) + 6*i
IdxFrames(c,i) == IF ~B(c.frames) \/ i < 0 \/ i >= c.nf THEN -1 ELSE NStIntr(c) + NStExt(c) + 6*i
IdxPoints(c,i) == IF ~B(c.frames) \/ i < 0 \/ i >= NVarPoints(c) THEN -1
                  ELSE NStIntr(c) + NStExt(c) + NStFrames(c) + 3*i
IdxWarp(c)     == IF ~HasWarp(c) THEN -1 ELSE NStIntr(c) + NStExt(c) + NStFrames(c) + NStPoints(c)

(* Which parameter each element of b is: <<kind, which, component>>.
   kind 0 intrinsics, 1 extrinsics, 2 frames, 3 points, 4 warp *)
Block(kind,n,comps) == [j \in 1..(n*Len(comps)) |-> <<kind, (j-1) \div Len(comps), comps[((j-1) % Len(comps)) + 1]>>]
Iota(lo,n)     == [j \in 1..n |-> lo+j-1]
IntrComps(c)   == (IF B(c.core) THEN Iota(0,c.ncore) ELSE <<>>) \o (IF B(c.dist) THEN Iota(c.ncore,c.nd) ELSE <<>>)
OwnerState(c)  ==
     (IF IntrComps(c) = <<>> THEN <<>> ELSE Block(0,c.ncam,IntrComps(c)))
  \o (IF B(c.ext)    THEN Block(1,c.next,Iota(0,6)) ELSE <<>>)
  \o (IF B(c.frames) THEN Block(2,c.nf,Iota(0,6))   ELSE <<>>)
  \o (IF B(c.frames) THEN Block(3,NVarPoints(c),Iota(0,3)) ELSE <<>>)
  \o (IF HasWarp(c)  THEN Block(4,1,Iota(0,2)) ELSE <<>>)

-----------------------------------------------------------------------------
(* Measurement vector *)
NMBoards(c)    == Len(c.ob)*c.W*c.H*2
NMPoints(c)    == Len(c.op)*2
Choose2(n)     == (n*(n-1)) \div 2
NMTriSets(c,k) == SumSeq([j \in 1..k |-> Choose2(Len(c.tri[j]))])
NMTri(c)       == NMTriSets(c,Len(c.tri))
NRegCam(c)     == IF B(c.reg) THEN (IF B(c.dist) THEN c.nd ELSE 0) + (IF B(c.core) THEN 2 ELSE 0) ELSE 0
NUnity(c)      == IF B(c.unity) /\ B(c.ext) /\ c.next > 0 THEN 1 ELSE 0
NMReg(c)       == c.ncam*NRegCam(c) + NUnity(c)
NMeas(c)       == NMBoards(c) + NMPoints(c) + NMTri(c) + NMReg(c)

IdxMBoards(c,i) == IF Len(c.ob) = 0 \/ i < 0 \/ i >= Len(c.ob) THEN -1 ELSE i*c.W*c.H*2
IdxMPoints(c,i) == IF Len(c.op) = 0 \/ i < 0 \/ i >= Len(c.op) THEN -1 ELSE NMBoards(c) + 2*i
IdxMTri(c,i)    == IF Len(c.tri) = 0 \/ i < 0 \/ i >= Len(c.tri) THEN -1 ELSE NMBoards(c) + NMPoints(c) + NMTriSets(c,i)
IdxMReg(c)      == IF NMReg(c) = 0 THEN -1 ELSE NMBoards(c) + NMPoints(c) + NMTri(c)

(* What each element of x measures.
   <<0,iobs,corner,xy>> board corner, <<1,iobs,xy>> point,
   <<2,set,k0,k1>> pair k0<k1 of the observations of a triangulated feature,
   <<3,icam,j>> distortion regularization, <<4,icam,xy>> center pixel, <<5>> unity_cam01 *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
(* pairs 0<=a<b<n in lexicographical order *)
Pairs(n)       == Concat([a \in 1..n |-> [k \in 1..(n-a) |-> <<a-1, a-1+k>>]])
OwnerMeas(c)   ==
     [j \in 1..NMBoards(c) |-> <<0, (j-1) \div (2*c.W*c.H), ((j-1) \div 2) % (c.W*c.H), (j-1) % 2>>]
  \o [j \in 1..NMPoints(c) |-> <<1, (j-1) \div 2, (j-1) % 2>>]
  \o Concat([s \in 1..Len(c.tri) |-> [p \in 1..Choose2(Len(c.tri[s])) |-> <<2, s-1>> \o Pairs(Len(c.tri[s]))[p]]])
  \o (IF B(c.reg) /\ B(c.dist) THEN [j \in 1..(c.ncam*c.nd) |-> <<3, (j-1) \div c.nd, (j-1) % c.nd>>] ELSE <<>>)
  \o (IF B(c.reg) /\ B(c.core) THEN [j \in 1..(c.ncam*2) |-> <<4, (j-1) \div 2, (j-1) % 2>>] ELSE <<>>)
  \o (IF NUnity(c) = 1 THEN << <<5>> >> ELSE <<>>)

(* decode_observation_indices_points_triangulated(): measurement -> pair *)
FirstTri(c)      == NMBoards(c) + NMPoints(c)
TriObs0(c,s)     == SumSeq([j \in 1..s |-> Len(c.tri[j])])     \* first observation of feature s (0-based)
DecodeTri(c,im)  == LET o == OwnerMeas(c)[FirstTri(c)+im+1] IN
   [iobs0 |-> TriObs0(c,o[2]) + o[3], iobs1 |-> TriObs0(c,o[2]) + o[4],
    iset  |-> o[2],
    nset  |-> Len(c.tri[o[2]+1]),
    imeas0|-> IdxMTri(c,o[2]) - FirstTri(c)]

-----------------------------------------------------------------------------
(* Jacobian structure: the set of state elements measurement o may depend on.
   For a splined model the distortion support is one (order+1)x(order+1) window of
   knots, whose location is geometry. *)
Run(i,n)       == IF i < 0 THEN {} ELSE i..(i+n-1)
NCoreSt(c)     == IF B(c.core) THEN c.ncore ELSE 0
CoreCols(c,ic,xy) == IF B(c.core) /\ c.ncore = 4 THEN {IdxIntr(c,ic)+xy, IdxIntr(c,ic)+2+xy} ELSE {}
Windows(c,ic,xy) == LET r == c.sp[1]+1 IN
   { { IdxIntr(c,ic) + NCoreSt(c) + 2*((y0+dy)*c.sp[2] + x0+dx) + xy : dx \in 0..c.sp[1], dy \in 0..c.sp[1] }
      : x0 \in 0..(c.sp[2]-r), y0 \in 0..(c.sp[3]-r) }
DistCols(c,ic,xy) ==   \* the set of admissible column sets
   IF ~B(c.dist) \/ c.nd = 0 THEN {{}}
   ELSE IF c.sp[1] > 0 THEN Windows(c,ic,xy)
   ELSE { Run(IdxIntr(c,ic)+NCoreSt(c), c.nd) }
GeomCols(c,o) ==
   IF o[1] = 0 THEN Run(IdxExt(c,c.ob[o[2]+1][3]),6) \cup Run(IdxFrames(c,c.ob[o[2]+1][1]),6) \cup Run(IdxWarp(c),2)
   ELSE Run(IdxExt(c,c.op[o[2]+1][3]),6) \cup Run(IdxPoints(c,c.op[o[2]+1][1]),3)
RowOK(c,o,cols) ==
   CASE o[1] = 0 -> \E d \in DistCols(c,c.ob[o[2]+1][2],o[4]) : cols = CoreCols(c,c.ob[o[2]+1][2],o[4]) \cup d \cup GeomCols(c,o)
     [] o[1] = 1 -> \E d \in DistCols(c,c.op[o[2]+1][2],o[3]) : cols = CoreCols(c,c.op[o[2]+1][2],o[3]) \cup d \cup GeomCols(c,o)
     [] o[1] = 2 -> cols = Run(IdxExt(c,c.tri[o[2]+1][o[3]+1][2]),6) \cup Run(IdxExt(c,c.tri[o[2]+1][o[4]+1][2]),6)
     [] o[1] = 3 -> IF c.sp[1] > 0
                    THEN cols = {IdxIntr(c,o[2]) + NCoreSt(c) + 2*(o[3] \div 2) + k : k \in {0,1}}
                    ELSE cols = {IdxIntr(c,o[2]) + NCoreSt(c) + o[3]}
     [] o[1] = 4 -> cols = {IdxIntr(c,o[2]) + 2 + o[3]}
     [] o[1] = 5 -> cols = Run(IdxExt(c,0)+3,3)

-----------------------------------------------------------------------------
(* Which problems mrcal accepts, as far as the layout is concerned *)
Valid(c) ==
  /\ c.ncam >= 1 /\ c.npf >= 0 /\ c.npf <= c.np
  /\ (c.tri # <<>> => ~B(c.core) /\ ~B(c.dist) /\ B(c.ext))
  /\ \A k \in 1..Len(c.tri) : Len(c.tri[k]) >= 2

-----------------------------------------------------------------------------
(* Design properties *)
RangeOf(i,n)   == IF i < 0 THEN {} ELSE i..(i+n-1)
StateBlocks(c) == [intr   |-> UNION {RangeOf(IdxIntr(c,i),NIntr(c)) : i \in 0..(c.ncam-1)},
                   ext    |-> UNION {RangeOf(IdxExt(c,i),6) : i \in 0..(c.next-1)},
                   frames |-> UNION {RangeOf(IdxFrames(c,i),6) : i \in 0..(c.nf-1)},
                   points |-> UNION {RangeOf(IdxPoints(c,i),3) : i \in 0..(c.np-1)},
                   warp   |-> RangeOf(IdxWarp(c),2)]
(* every element of b belongs to exactly one block, and the counts agree *)
StatePartition(c) ==
  LET b == StateBlocks(c) IN
  /\ UNION {b[k] : k \in DOMAIN b} = 0..(NStates(c)-1)
  /\ Cardinality(b.intr) = NStIntr(c) /\ Cardinality(b.ext) = NStExt(c)
  /\ Cardinality(b.frames) = NStFrames(c) /\ Cardinality(b.points) = NStPoints(c)
  /\ Cardinality(b.warp) = NStWarp(c)
  /\ SumSeq([i \in 1..5 |-> Cardinality(b[<<"intr","ext","frames","points","warp">>[i]])]) = NStates(c)
(* the index functions point at the parameter they claim *)
StateIndexOwns(c) ==
  LET o == OwnerState(c) IN
  /\ Len(o) = NStates(c)
  /\ Cardinality({o[j] : j \in DOMAIN o}) = Len(o)
  /\ \A i \in 0..(c.ncam-1) : IdxIntr(c,i) >= 0 => \A k \in 1..NIntr(c) : o[IdxIntr(c,i)+k] = <<0,i,IntrComps(c)[k]>>
  /\ \A i \in 0..(c.next-1) : IdxExt(c,i) >= 0 => \A k \in 1..6 : o[IdxExt(c,i)+k] = <<1,i,k-1>>
  /\ \A i \in 0..(c.nf-1) : IdxFrames(c,i) >= 0 => \A k \in 1..6 : o[IdxFrames(c,i)+k] = <<2,i,k-1>>
  /\ \A i \in 0..(c.np-1) : IdxPoints(c,i) >= 0 => \A k \in 1..3 : o[IdxPoints(c,i)+k] = <<3,i,k-1>>
  /\ (IdxWarp(c) >= 0 => \A k \in 1..2 : o[IdxWarp(c)+k] = <<4,0,k-1>>)
MeasPartition(c) ==
  LET o == OwnerMeas(c) IN
  /\ Len(o) = NMeas(c)
  /\ Cardinality({o[j] : j \in DOMAIN o}) = Len(o)
  /\ \A i \in 0..(Len(c.ob)-1) : o[IdxMBoards(c,i)+1] = <<0,i,0,0>>
  /\ \A i \in 0..(Len(c.op)-1) : o[IdxMPoints(c,i)+1] = <<1,i,0>>
  /\ \A i \in 0..(Len(c.tri)-1) : o[IdxMTri(c,i)+1] = <<2,i,0,1>>
  /\ (IdxMReg(c) >= 0 => \A j \in 1..Len(o) : (j > IdxMReg(c)) <=> (o[j][1] >= 3))
(* decoding a triangulated measurement inverts the layout *)
DecodeInverts(c) ==
  \A im \in 0..(NMTri(c)-1) : LET d == DecodeTri(c,im) IN
     /\ d.iobs0 < d.iobs1
     /\ \A im2 \in 0..(NMTri(c)-1) : im2 # im => DecodeTri(c,im2) # d
=============================================================================
