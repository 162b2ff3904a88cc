----------------------------- MODULE MCTriNoise -----------------------------
EXTENDS Rigs, TriNoise
Pair(k) == LET a == Pick(k,NCam) IN <<a,(a + 1 + Pick(k+1,NCam-1)) % NCam>>
Question == [pairs |-> IF Pick(40,2) = 0 THEN <<Pair(41)>> ELSE <<Pair(41),Pair(43)>>, form |-> Pick(45,4),
   cal |-> <<"none","zero","given","given","given","infer">>[1 + Pick(46,6)], obs |-> IF Pick(47,30) = 0 THEN "negative" ELSE <<"none","zero","given","given">>[1 + Pick(48,4)],
   corr |-> <<0,50,100>>[1 + Pick(49,3)], method |-> <<"geometric","leecivera_l1","leecivera_linf","leecivera_mid2","leecivera_wmid2","lindstrom","leecivera_mid2">>[1 + Pick(50,7)],
   stab |-> Pick(51,2), fault |-> IF Pick(52,8) > 0 THEN "none" ELSE <<"moved","foreign","bare">>[1 + Pick(53,3)], at |-> Pick(54,4), nq |-> 1 + Pick(55,3), out |-> Pick(30,3) \div 2]
Good(c) == Ok(c) /\ c.ncam > 1 /\ c.ob # <<>>
Laws == LET c == Problem  u == Question IN Good(c) =>
   /\ \A p \in SeqRange(u.pairs) :
        /\ p[1] # p[2]
        /\ PairCols(c,u,p) \subseteq 0..(NStates(c)-1)
        /\ PairCols(c,u,p) = PairCols(c,u,<<p[2],p[1]>>)
        /\ PairCols(c,[u EXCEPT !.stab = 0],p) \subseteq PairCols(c,u,p)
        /\ IdxWarp(c) >= 0 => ~(IdxWarp(c) \in PairCols(c,u,p))
   /\ \A k \in SeqRange(Returned(u)) : k = "joint" => Len(Returned(u)) = 3
Export == Good(Problem) => PrintT("CASE " \o ToJson([c |-> Problem, u |-> Question, refused |-> IF Refused(Problem,Question) THEN 1 ELSE 0, icam |-> [i \in 1..Problem.ncam |-> Icam(Problem,i-1)]]))
=============================================================================
