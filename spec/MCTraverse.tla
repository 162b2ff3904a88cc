----------------------------- MODULE MCTraverse -----------------------------
EXTENDS Traverse, Json
CONSTANTS Edits, Stride, Seed
VARIABLES m, c, s, n, h, go
W == <<0,1,2,3,5,40000,65535>>
Zero(N) == [i \in 1..N |-> [j \in 1..N |-> 0]]
Set(x,i,j,v) == [x EXCEPT ![i][j] = v, ![j][i] = v]
RECURSIVE Of(_,_)
Of(N,e) == IF e = <<>> THEN Zero(N) ELSE Set(Of(N,Tail(e)),e[1][1],e[1][2],e[1][3])
Hash(N,k) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i IN W[1+((a*a*k+b*7+a*b*(k+3)+k) % 5)]]]
Sparse(N,k) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE LET a == IF i < j THEN i ELSE j b == IF i < j THEN j ELSE i IN IF (a*k+b*5+a*b) % 4 = 0 THEN W[2+((a*13+b*k) % 6)] ELSE 0]]
Bases == {Zero(1), Zero(2), Of(3,<< <<1,2,1>>,<<2,3,1>>,<<1,3,1>> >>), Of(5,<< <<1,2,5>>,<<1,4,3>>,<<2,3,2>>,<<2,4,5>>,<<3,5,5>> >>),
          Of(5,<< <<1,5,1>>,<<5,4,65535>>,<<4,3,65535>>,<<3,2,65535>>,<<1,2,2>> >>), Of(4,<< <<1,3,1>>,<<2,4,1>> >>), Of(7,<< <<1,2,1>>,<<1,3,2>>,<<2,4,3>>,<<3,4,1>>,<<4,5,2>>,<<5,6,1>>,<<4,6,1>> >>)}
         \cup {Hash(N,k+Seed) : N \in {4,6,9}, k \in 1..3} \cup {Sparse(N,k+Seed) : N \in {5,8,12}, k \in 1..5}
C0 == [lay |-> "c", cb |-> "none", k |-> 0, fault |-> "", impl |-> "c"]
Init == m \in Bases /\ c = C0 /\ s = Start(m) /\ n = 0 /\ go = FALSE /\ h = Seed*37 + Len(m)*11 + (SumRow(m[1])%97) + (SumRow(m[Len(m)])%89)*3
Hh(x) == h' = (h*131 + x*7 + 3) % 9973
Edit == ~go /\ n < Edits /\ (n = 0 \/ h % Stride = Seed % Stride) /\ n' = n+1 /\ go' = FALSE /\
  \/ /\ \E i \in Sensors(m) : \E j \in Sensors(m) : i < j /\ \E v \in DOMAIN W : m[i][j] # W[v] /\ m' = Set(m,i,j,W[v]) /\ s' = Start(m') /\ Hh(i+11*j+131*v)
     /\ UNCHANGED c
  \/ /\ UNCHANGED <<m,s>>
     /\ \/ \E l \in {"f","strided","offset","readonly"} : c' = [c EXCEPT !.lay = l] /\ Hh(Len(l)*17)
        \/ \E l \in {"true","zero","object"} : c' = [c EXCEPT !.cb = l] /\ Hh(Len(l)*19+500)
        \/ \E l \in {"false","raise"} : \E k \in 0..3 : c' = [c EXCEPT !.cb = l, !.k = k] /\ Hh(Len(l)*19+900+k)
        \/ \E f \in {"dtype","float","rect","flat","cube","empty","notcallable","none","missing"} : c' = [c EXCEPT !.fault = f] /\ Hh(Len(f)*29+1100)
        \/ c' = [c EXCEPT !.impl = "py"] /\ c.fault = "" /\ Hh(1500)
Walk == n < 2 /\ (n = 1 => h % Stride = Seed % Stride) /\ Len(m) < 8 /\ c = C0 /\ go' = TRUE /\ \E e \in Steps(m,s) : s' = Take(m,s,e) /\ UNCHANGED <<m,c,n,h>>
Next == Edit \/ Walk
Laws == s.mono /\ ((go /\ Steps(m,s) = {}) => AtEnd(m,s))
Pick == n < 2 \/ (h + n) % 5 = 0
Export == (~go /\ Pick /\ ~(c.impl = "py" /\ (c.fault # "" \/ c.cb \in {"false"}))) => PrintT("CASE " \o ToJson([m |-> m, c |-> c]))
=============================================================================
