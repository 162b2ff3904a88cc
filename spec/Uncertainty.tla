----------------------------- MODULE Uncertainty -----------------------------
(* What the uncertainty of a projection depends on: which observations tell how the
   coordinate system of the camera (or of the reference) moves when the state of the
   solved problem moves, through which variables, and which questions have no answer.
   The problem is a record of Layout; u is the question:
     icam  camera, method "ccp" "rrp" "mean", inf 0/1 (the point is at infinity) *)
EXTENDS Layout
NOb(c) == Len(c.ob)
(* observations are numbered boards first *)
Obs(c)     == [k \in 1..(NOb(c)+Len(c.op)) |-> IF k <= NOb(c) THEN [kind |-> "f", i |-> c.ob[k][1], ci |-> c.ob[k][2], ce |-> c.ob[k][3]]
                                                ELSE LET o == c.op[k-NOb(c)] IN [kind |-> "p", i |-> o[1], ci |-> o[2], ce |-> o[3]]]
Used(c,u,o) == u.method = "rrp" \/ o.ci = u.icam
ObjIdx(c,o) == IF o.kind = "f" THEN IdxFrames(c,o.i) ELSE IdxPoints(c,o.i)
(* how an observation sees the transformation: as a motion of the camera, or of what is observed *)
Path(c,u,o) ==
   IF ~Used(c,u,o) THEN "none"
   ELSE IF u.method = "ccp" /\ IdxExt(c,o.ce) >= 0 THEN "e"
   ELSE IF ObjIdx(c,o) >= 0 THEN o.kind
   ELSE "none"
Paths(c,u) == [k \in DOMAIN Obs(c) |-> Path(c,u,Obs(c)[k])]
(* the variables whose motion an observation of this path reports *)
Moves(c,u,o) ==
   LET obj == (IF o.kind = "f" THEN Run(IdxFrames(c,o.i),6) \cup Run(IdxWarp(c),2) ELSE Run(IdxPoints(c,o.i),3)) IN
   CASE Path(c,u,o) = "none" -> {}
     [] Path(c,u,o) = "e" -> Run(IdxExt(c,o.ce),6) \cup obj
     [] OTHER -> obj
KCols(c,u) == UNION {Moves(c,u,Obs(c)[k]) : k \in DOMAIN Obs(c)}
(* mean-pcam: the poses this camera is seen at *)
Poses(c,u) == {Obs(c)[k].ce : k \in {j \in DOMAIN Obs(c) : Obs(c)[j].ci = u.icam}}
MeanCols(c,u) == UNION {Run(IdxExt(c,e),6) : e \in Poses(c,u)} \cup UNION {Run(IdxFrames(c,i),6) : i \in 0..(c.nf-1)}
Consecutive(S) == \A a,b \in S : \A k \in a..b : k \in S
Own(c,u)   == IF IdxIntr(c,u.icam) < 0 THEN {} ELSE Run(IdxIntr(c,u.icam),NIntr(c))
Depends(c,u) == Own(c,u) \cup (CASE u.method = "mean" -> MeanCols(c,u)
                                 [] u.method = "ccp" -> KCols(c,u)
                                 [] OTHER -> KCols(c,u) \cup UNION {Run(IdxExt(c,e),6) : e \in Poses(c,u)})
(* measurements of rejected observations say nothing about the noise *)
NInliers(c,u) == LET k == NOb(c)*c.W*c.H IN 2*(k - (IF u.out = 1 THEN (k+6) \div 7 ELSE 0) + Len(c.op) - (IF u.out = 1 /\ Len(c.op) > 6 THEN 1 ELSE 0))
(* the questions that cannot be answered *)
NoPose(c,u) == Poses(c,u) = {} \/ (Cardinality(Poses(c,u)) > 1 /\ (-1 \in Poses(c,u) \/ ~Consecutive(Poses(c,u))))
Refused(c,u) ==
   \/ c.tri # <<>>
   \/ NOb(c) + Len(c.op) = 0
   \/ (u.method = "ccp" /\ NIntr(c) = 0)
   \/ (u.method \in {"ccp","rrp"} /\ \A k \in DOMAIN Obs(c) : Path(c,u,Obs(c)[k]) = "none")
   \/ (u.method \in {"mean","rrp"} /\ NoPose(c,u))
   \/ (u.method = "rrp" /\ Cardinality(Poses(c,u)) > 1)
   \/ (u.method = "mean" /\ B(c.frames) /\ c.op # <<>>)
   \/ (u.sigma = 0 /\ NInliers(c,u) <= NStates(c))
=============================================================================
