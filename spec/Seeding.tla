------------------------------- MODULE Seeding -------------------------------
(* The seed of a calibration from consistent observations: stationary cameras, a moving
   chessboard. Camera 0 is the reference, the poses of all the others and of all the
   boards are exact consequences of those of the rig.
   A case: cams, frames (numbers of poses), rows <<frame,camera>>, both from 0 *)
EXTENDS Residual, Traverse
World(c,i) == PoseC(c.cams[i+1])
Cam0(c) == World(c,0)
CamRef(c,i) == Compose(World(c,i),Invert(Cam0(c)))
FrameRef(c,f) == Compose(Cam0(c),PoseF(c.frames[f+1]))
(* the pose of the board in the camera that sees it *)
Seen(c,r) == Compose(World(c,r[2]),PoseF(c.frames[r[1]+1]))
NCam(c) == Len(c.cams)
NFrm(c) == Len(c.frames)
See(c,f) == {r[2] : r \in {c.rows[k] : k \in {k \in DOMAIN c.rows : c.rows[k][1] = f}}}
Shared(c,i,j) == Cardinality({f \in 0..(NFrm(c)-1) : i \in See(c,f) /\ j \in See(c,f)})
(* a pair of cameras is tied together by at least two common views *)
Links(c) == [i \in 1..NCam(c) |-> [j \in 1..NCam(c) |-> IF i = j \/ Shared(c,i-1,j-1) < 2 THEN 0 ELSE Shared(c,i-1,j-1)]]
Tied(c) == Reach(Links(c),{1}) = 1..NCam(c)
Ordered(c) == \A k \in 1..(Len(c.rows)-1) : c.rows[k][1] <= c.rows[k+1][1]
(* at least 6 of the corners of each view are usable *)
NGood(c,k) == Cardinality({i \in DOMAIN c.w[k] : c.w[k][i] > 0})
Enough(c) == \A k \in DOMAIN c.rows : NGood(c,k) >= 6
NFocal(c) == c.nfocal
FocalOk(c) == c.nfocal \in {1,NCam(c)}
Solvable(c) == CASE c.api = "seed"  -> FocalOk(c) /\ Enough(c) /\ Ordered(c) /\ Tied(c)
                 [] c.api = "mono"  -> Enough(c)
                 [] c.api = "joint" -> TRUE
(* focal length of each camera *)
Focal(c,i) == IF c.nfocal = 1 THEN c.focal[1] ELSE c.focal[i+1]
(* what a pose is compared by: rotation matrix times the norm, translation times the denominator *)
Num(T) == <<Mat(T.q)[1],Mat(T.q)[2],Mat(T.q)[3],T.t>>
Den(T) == <<Norm2(T.q),T.d>>
(* views of one frame that disagree by displacements of the board: the mean *)
Moved(c,f) == LET K == {k \in DOMAIN c.rows : c.rows[k][1] = f}
                  RECURSIVE S(_,_) S(x,J) == IF J = {} THEN 0 ELSE LET k == CHOOSE k \in J : TRUE IN c.move[k][x] + S(x,J \ {k})
                  n == Cardinality(K)  P == FrameRef(c,f) IN
              Pose3(P.q,[x \in 1..3 |-> P.t[x]*n + S(x,K)*P.d],P.d*n)
Out(c) == CASE c.api = "seed"  -> [cams |-> [i \in 1..(NCam(c)-1) |-> CamRef(c,i)], frames |-> [f \in 1..NFrm(c) |-> FrameRef(c,f-1)]]
            [] c.api = "mono"  -> [cams |-> <<>>, frames |-> [k \in DOMAIN c.rows |-> Seen(c,c.rows[k])]]
            [] c.api = "joint" -> [cams |-> <<>>, frames |-> [f \in 1..NFrm(c) |-> Moved(c,f-1)]]
=============================================================================
