--------------------------- MODULE MCUncertainty ---------------------------
EXTENDS Rigs, Uncertainty
Question == [icam |-> Pick(23,NCam), method |-> <<"ccp","ccp","ccp","ccp","ccp","rrp","mean","mean">>[1 + Pick(24,8)], inf |-> Pick(25,2), sigma |-> <<0,30,100>>[1 + Pick(26,3)],
   what |-> <<"covariance","worstdirection-stdev","rms-stdev">>[1 + Pick(27,3)], shape |-> Pick(28,4), moved |-> Pick(29,3) \div 2, out |-> Pick(30,3) \div 2]
Laws == LET c == Problem  u == Question IN
   (* what is reported is in the state; other cameras' intrinsics never matter; a camera's own pose matters iff it is solved for *)
   /\ Depends(c,u) \subseteq 0..(NStates(c)-1)
   /\ \A i \in 0..(c.ncam-1) : i # u.icam /\ IdxIntr(c,i) >= 0 => Run(IdxIntr(c,i),NIntr(c)) \cap Depends(c,u) = {}
   /\ (u.method = "ccp" => \A e \in Poses(c,u) : Run(IdxExt(c,e),6) \subseteq Depends(c,u))
   /\ (u.method = "ccp" => \A i \in 0..(c.nf-1) : (\A k \in 1..NOb(c) : c.ob[k][1] = i => c.ob[k][2] # u.icam) => Run(IdxFrames(c,i),6) \cap Depends(c,u) = {})
   (* locking everything but the intrinsics leaves nothing to be reported *)
   /\ (~B(c.ext) /\ ~B(c.frames) /\ u.method # "mean" => \A k \in DOMAIN Obs(c) : Path(c,u,Obs(c)[k]) = "none")
   (* the observations of a camera that all can be seen as its motion never need the objects *)
   /\ (u.method = "ccp" /\ B(c.ext) /\ ~(-1 \in Poses(c,u)) => \A k \in DOMAIN Obs(c) : Used(c,u,Obs(c)[k]) => Path(c,u,Obs(c)[k]) = "e")
Export == Ok(Problem) => PrintT("CASE " \o ToJson([c |-> Problem, u |-> Question, paths |-> Paths(Problem,Question), cols |-> SetToSortSeq(Depends(Problem,Question), LAMBDA a,b : a < b), refused |-> IF Refused(Problem,Question) THEN 1 ELSE 0]))
=============================================================================
