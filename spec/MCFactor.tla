------------------------------ MODULE MCFactor ------------------------------
EXTENDS Factor, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Big(i,m) == (P(200 + i)*P(900 + 3*i) + P(500+2*i)) % m
Forms == <<"csc","dense","f32","i64","int","coo","swapped","csr_array","none">>
Mat(k) == LET nv == IF Big(7*k,25) = 0 THEN 0 ELSE 1 + Big(7*k+1,4)
              nr == IF Big(7*k+2,15) = 0 THEN Big(7*k+3,3) ELSE nv + Big(7*k+3,4)
              dens == 1 + Big(7*k+4,4)
              dup == Big(7*k+5,12) = 0
              val(i,j) == IF Big(7*k+6,3) = 0 /\ i = j THEN 1 + Big(60*k+i,3) ELSE Big(100*k+10*i+j,9) - 4
              row(i) == LET cols == SelectSeq([j \in 1..nv |-> j-1], LAMBDA j : Big(3000+100*k+10*i+j,4) < dens \/ j + 1 = i)
                            cs == IF Big(7*k+8,4) = 0 THEN [x \in DOMAIN cols |-> cols[Len(cols)+1-x]] ELSE cols IN     \* in any order
                        [x \in DOMAIN cs |-> <<cs[x], val(i,IF dup /\ cs[x] = 1 THEN 1 ELSE cs[x]+1)>>] IN
   [n |-> nv, rows |-> [i \in 1..nr |-> row(i)], form |-> IF Big(7*k+9,8) = 0 THEN Forms[1 + Big(7*k+10,9)] ELSE "csr"]
NM == 1 + Pick(1,3)
Op(k) == LET kind == Big(4000+9*k,10) IN
   IF k = 1 \/ kind < 2 THEN [op |-> "init", m |-> 1 + Big(4001+9*k,NM), touch |-> Big(4002+9*k,2)]
   ELSE IF kind = 2 THEN [op |-> IF Big(4003+9*k,3) = 0 THEN "clear" ELSE "about"]
   ELSE [op |-> "solve", form |-> IF Big(4004+9*k,4) > 0 THEN <<"vector","rows","cube","none","one">>[1 + Big(4005+9*k,5)]
                                  ELSE <<"strided","f32","int","list","swapped","short","long","empty","scalar","fortran">>[1 + Big(4005+9*k,10)],
         sys |-> IF Big(4006+9*k,5) = 0 THEN <<"chain","chain","bad","CHOLMOD_A","CHOLMOD_","a","","chain","CHOLMOD_X","chain">>[1 + Big(4007+9*k,10)] ELSE <<"default","A","chain","chain">>[1 + Big(4007+9*k,4)],
         x |-> [i \in 1..6 |-> [j \in 1..4 |-> Big(5000+100*k+10*i+j,19) - 9]]]
Case == [first |-> <<"new","new","bare">>[1 + Pick(2,3)], mats |-> [k \in 1..NM |-> Mat(k)], ops |-> [k \in 1..(2 + Pick(3,6)) |-> Op(k)]]
Laws == \E c \in {Case} :
   /\ \A k \in DOMAIN c.mats : \E G \in {Gram(c.mats[k])} :
        /\ \A i \in DOMAIN G, j \in DOMAIN G : G[i][j] = G[j][i]
        /\ DetM(G) >= 0
        /\ Hopeless(c.mats[k]) => Singular(c.mats[k])
        /\ (Len(c.mats[k].rows) < c.mats[k].n) => Singular(c.mats[k])
        /\ \A i \in DOMAIN G : G[i][i] >= 0
   /\ \A k \in DOMAIN c.ops : LET s == StateAt(c,k) IN s # 0 => (~Singular(c.mats[s]) /\ Acceptable(c.mats[s]) /\ c.ops[k].op # "clear")
Export == \E c \in {Case} : PrintT("CASE " \o ToJson([c |-> c, gram |-> [k \in DOMAIN c.mats |-> Gram(c.mats[k])], st |-> [k \in DOMAIN c.ops |-> StateAt(c,k)]]))
Init == n \in 1..N
Next == UNCHANGED n
=============================================================================
