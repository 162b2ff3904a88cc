------------------------------ MODULE MCSeeding ------------------------------
EXTENDS Seeding, SequencesExt, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Api == << "seed","joint","mono","seed" >>[1 + Pick(1,4)]
NC == 1 + Pick(2,4)
NF == 1 + Pick(3,5)
Cams == [i \in 1..NC |-> 1 + Pick(10+i,4)]
Frames == [i \in 1..NF |-> 1 + Pick(20+i,5)]
(* which cameras see a frame, in ascending, descending or rotated order *)
Who(f) == LET S == {i \in 0..(NC-1) : Pick(100+10*f+i,4) > 0} IN IF S = {} THEN {Pick(100+10*f,NC)} ELSE S
Perm(s,k) == CASE k = 0 -> s [] k = 1 -> Reverse(s) [] OTHER -> Tail(s) \o <<Head(s)>>
ObF(f) == LET s == Perm(SetToSortSeq(Who(f),<),IF Pick(4,3) = 0 THEN Pick(200+f,3) ELSE 0) IN [k \in DOMAIN s |-> <<f-1,s[k]>>]
RECURSIVE Flat(_)
Flat(m) == IF m = 0 THEN <<>> ELSE Flat(m-1) \o ObF(m)
Rows0 == Flat(NF)
Rows == IF Pick(5,20) = 0 THEN Reverse(Rows0) ELSE Rows0
W == 3 + Pick(6,4)
H == 3 + Pick(7,3)
(* weights of the corners: usable, missing, too few *)
Wk(k) == LET m == Pick(300+k,6) IN [i \in 1..(W*H) |-> CASE m = 0 -> IF i % 3 = 1 THEN -1 ELSE 1 [] m = 1 -> IF (i + (i \div W)) % 4 = 0 THEN 0 ELSE 2 [] m = 2 /\ Pick(8,6) = 0 -> IF i < 6 THEN 1 ELSE -1 [] OTHER -> 1]
Nf == IF Pick(9,15) = 0 THEN NC+1 ELSE IF Pick(9,2) = 0 THEN NC ELSE 1
Case == [api |-> Api, cams |-> Cams, frames |-> Frames, rows |-> Rows, W |-> W, H |-> H, s |-> 1 + Pick(30,2), w |-> [k \in DOMAIN Rows |-> Wk(k)],
         nfocal |-> Nf, focal |-> [i \in 1..Nf |-> 1000 + 100*Pick(40+i,6)], form |-> <<"scalar","list","tuple","array","array0">>[1 + Pick(50,5)],
         sizes |-> <<"array","tuple","mix">>[1 + Pick(51,3)], lens |-> <<0,1,2,3,4,5,6,8>>[1 + Pick(52,8)], models |-> Pick(53,2), paths |-> Pick(54,2),
         move |-> [k \in DOMAIN Rows |-> IF Pick(55,2) = 0 THEN <<0,0,0>> ELSE <<Pick(400+k,5)-2,Pick(500+k,5)-2,Pick(600+k,5)-2>>]]
AllSeen == \A i \in 0..(NC-1) : \E k \in DOMAIN Rows : Rows[k][2] = i
Init == n \in 1..N
Next == FALSE /\ n' = n
Laws == LET c == Case IN
  /\ \A k \in DOMAIN c.rows : Compose(CamRef(c,c.rows[k][2]),FrameRef(c,c.rows[k][1])) = Seen(c,c.rows[k])
  /\ CamRef(c,0) = Identity
  /\ Tied(c) => \A i \in 0..(NC-1) : NC > 1 => \E j \in 0..(NC-1) : i # j /\ Shared(c,i,j) >= 2
Export == (AllSeen /\ (Api # "joint" \/ Ordered(Case))) => PrintT("CASE " \o ToJson([c |-> Case, out |-> IF Solvable(Case) THEN Out(Case) ELSE [cams |-> <<>>, frames |-> <<>>]]))
=============================================================================
