------------------------------- MODULE MCAlign -------------------------------
EXTENDS Align, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Big(i,m) == (P(200 + i)*P(900 + 3*i) + P(500+2*i)) % m
Kind == <<"points","points","points","vectors","vectors","toz","eig","worst","quat">>[1 + Pick(1,9)]
Qs == <<<<1,0,0,0>>,<<1,1,0,0>>,<<0,0,1,0>>,<<1,1,1,1>>,<<1,2,0,0>>,<<1,-1,1,0>>,<<2,1,-1,0>>,<<0,1,1,0>>,<<0,1,0,1>>,<<1,0,-2,1>>,<<0,1,2,2>>,<<5,1,0,-1>>,<<1,0,5,1>>,<<3,-1,0,2>>,<<0,0,0,1>>,<<0,1,0,0>>>>
Q == Qs[1 + Pick(2,16)]
(* ---- alignments ---- *)
Shape == <<"any","any","any","flat","line","same","few">>[1 + Pick(3,7)]
NP == IF Shape = "few" THEN Pick(4,3) ELSE 2 + Pick(4,5)
Pt(k,s) == LET x == [i \in 1..3 |-> Big(40*s+3*k+i,7) - 3] IN
   CASE Shape = "flat" -> [x EXCEPT ![1 + Pick(5,3)] = 2]
     [] Shape = "line" -> [i \in 1..3 |-> x[1]*<<1,2,-1>>[1 + ((i + Pick(6,3)) % 3)] + (IF Kind = "vectors" THEN 0 ELSE i - 2)]
     [] Shape = "same" -> <<2,-1,3>> [] OTHER -> x
Exact == Pick(7,2)
(* a point moved by the rotation Q, times its norm *)
Moved(p) == MV(Mat(Q),p)
Tt == [i \in 1..3 |-> Pick(10+i,19) - 9]
NS == 1 + (Pick(14,3) \div 2)*(1 + Pick(15,2))                 \* stacked problems
Cloud(s) == LET p1 == [k \in 1..NP |-> Pt(k,s)] IN
   (* exact: b is in units of the norm of Q *)
   IF Exact = 1 THEN [b |-> p1, a |-> [k \in 1..NP |-> [i \in 1..3 |-> Moved(p1[k])[i] + (IF Kind = "vectors" THEN 0 ELSE Norm2(Q)*Tt[i])]]]
   ELSE [b |-> p1, a |-> [k \in 1..NP |-> [i \in 1..3 |-> IF Pick(16,3) = 0 THEN -p1[k][i] ELSE Big(300+40*s+3*k+i,9) - 4]]]
Alignment == [kind |-> Kind, w |-> [k \in 1..NP |-> IF Pick(17,3) = 0 THEN 1 ELSE Big(700+k,4)], given |-> IF Pick(17,3) = 0 THEN Pick(18,2) ELSE 1,
   q |-> Q, t |-> Tt, u |-> IF Exact = 1 THEN Norm2(Q) ELSE 1, exact |-> Exact, s |-> [k \in 1..NS |-> Cloud(k)], scale |-> <<"one","one","thousands","tenth","tiny">>[1 + Pick(19,5)],
   lay |-> <<"dense","dense","strided","strided1","stridedw","fortran">>[1 + Pick(20,6)], share |-> Pick(21,2), lead |-> Pick(22,2)]
(* ---- the rest ---- *)
Vv(s) == LET x == [i \in 1..3 |-> Big(3*s+i,41) - 20] y == IF Pick(5,3) = 0 THEN [i \in 1..3 |-> IF i = 1 + Pick(6,3) THEN x[i] ELSE 0] ELSE IF Pick(5,3) = 1 THEN [x EXCEPT ![2] = @ \div 4, ![3] = @ \div 5] ELSE x IN
         IF y = <<0,0,0>> THEN <<1,0,0>> ELSE y
ToZ == [kind |-> Kind, v |-> [s \in 1..NS |-> Vv(s)], scale |-> <<"one","thousands","tenth","tiny">>[1 + Pick(19,4)], lead |-> Pick(22,2), lay |-> <<"dense","strided">>[1 + Pick(20,2)]]
Dim == 1 + Pick(4,4)
Eigs == [kind |-> Kind, lead |-> Pick(22,2), m |-> [s \in 1..NS |-> LET sq == Kind = "worst" base == [n |-> Dim, g |-> 1 + Big(s,6), q |-> Qs[1 + Big(10+s,16)], l |-> <<>>] sc == IF Dim = 4 /\ sq THEN Scale(base) ELSE 1 IN
   [base EXCEPT !.l = [k \in 1..Dim |-> IF Pick(5,12) = 0 THEN 0 ELSE IF sq THEN LET x == Big(20+5*s+k,3) IN x*x*sc ELSE Big(20+5*s+k,9) - (IF Pick(6,2) = 0 THEN 0 ELSE 4)]]]]
Quat == [kind |-> Kind, q |-> [s \in 1..NS |-> Qs[1 + Big(10+s,16)]], lead |-> Pick(22,2), lay |-> <<"dense","strided">>[1 + Pick(20,2)], out |-> Pick(23,2)]
Case == CASE Kind \in {"points","vectors"} -> Alignment [] Kind = "toz" -> ToZ [] Kind \in {"eig","worst"} -> Eigs [] OTHER -> Quat
(* what the specification says of exact copies agrees with what it says of the optimum *)
Laws == LET c == TLCEval(Case) IN
   /\ Kind \in {"points","vectors"} => \A k \in DOMAIN c.s :
        LET a == c.s[k].a b == c.s[k].b m == TLCEval(Moment(c,a,b)) IN
        /\ c.exact = 0 => (Singular(c,a,b) <=> Singular(c,b,a))
        /\ (c.exact = 1 /\ Norm2(Q) <= 4) => (Singular(c,a,b) <=> ~RankAbove1(m))
        /\ c.exact = 1 => Best(TLCEval(Mat(Q)),Norm2(Q),m,0)
        /\ (c.exact = 1 /\ ~Singular(c,a,b)) => Is([i \in 1..3 |-> [j \in 1..3 |-> 10*Mat(Q)[i][j]]],10*Norm2(Q),Q)
        /\ NP <= (IF Kind = "points" THEN 2 ELSE 1) => Singular(c,a,b)
        (* a point that counts twice is the same as two points *)
        /\ NP > 0 => LET d == [c EXCEPT !.w = Append([@ EXCEPT ![1] = 1],c.w[1] - 1)] IN c.w[1] > 0 => Moment(d,Append(a,a[1]),Append(b,b[1])) = m
   /\ Kind \in {"eig","worst"} => \A k \in DOMAIN c.m :
        LET M == TLCEval(Symm(c.m[k])) e == TLCEval(Eig(c.m[k])) o == TLCEval(Orth(c.m[k])) D == 1..c.m[k].n IN
        /\ \A i \in D, j \in D : M[i][j] = M[j][i]
        /\ Total([i \in D |-> M[i][i]]) = Total(e)
        /\ \A i \in D, j \in D : Total([x \in D |-> M[i][x]*o[x][j]]) = e[j]*o[i][j]
Rich(c) == IF c.kind \in {"eig","worst"} THEN [c EXCEPT !.m = [k \in DOMAIN @ |-> [d |-> @[k], M |-> Symm(@[k])]]] ELSE c
Export == PrintT("CASE " \o ToJson([c |-> Rich(TLCEval(Case))]))
Init == n \in 1..N
Next == UNCHANGED n
=============================================================================
