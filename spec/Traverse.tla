------------------------------ MODULE Traverse ------------------------------
(* A graph of sensors: m[i][j] = number of shared observations, 0 = no link. Sensors
   1..N here, sensor 1 is the root. Cheapest = fewest links, then most shared. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == 2000000000
Sensors(m) == DOMAIN m
Linked(m,i,j) == i # j /\ m[i][j] # 0
Cost(m,i,j) == 65536 - m[i][j]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* ------ the traversal: which sensors were reached so far, at what cost *)
Start(m) == [cost |-> [i \in Sensors(m) |-> IF i = 1 THEN 0 ELSE INF], done |-> {1}, n |-> 0, last |-> 0, mono |-> TRUE, hops |-> [i \in Sensors(m) |-> 0]]
Via(m,s,e) == s.cost[e[1]] + Cost(m,e[1],e[2])
Open(m,s) == {e \in s.done \X (Sensors(m) \ s.done) : Linked(m,e[1],e[2])}
Steps(m,s) == LET o == Open(m,s) IN IF o = {} THEN {} ELSE LET best == MinOf({Via(m,s,e) : e \in o}) IN {e \in o : Via(m,s,e) = best}
Take(m,s,e) == [s EXCEPT !.cost[e[2]] = Via(m,s,e), !.done = @ \cup {e[2]}, !.n = @+1, !.mono = @ /\ Via(m,s,e) >= s.last, !.last = Via(m,s,e), !.hops[e[2]] = s.hops[e[1]]+1]
(* ------ independently: cheapest paths, by the number of links allowed *)
RECURSIVE Dist(_,_)
Dist(m,k) == IF k = 0 THEN [i \in Sensors(m) |-> IF i = 1 THEN 0 ELSE INF]
   ELSE LET d == Dist(m,k-1) IN [j \in Sensors(m) |-> MinOf({d[j]} \cup {d[i]+Cost(m,i,j) : i \in {i \in Sensors(m) : Linked(m,i,j) /\ d[i] < INF}})]
RECURSIVE Reach(_,_)
Reach(m,S) == LET T == S \cup {j \in Sensors(m) : \E i \in S : Linked(m,i,j)} IN IF T = S THEN S ELSE Reach(m,T)
RECURSIVE Layer(_,_)
Layer(m,k) == IF k = 0 THEN {1} ELSE LET l == Layer(m,k-1) IN l \cup {j \in Sensors(m) : \E i \in l : Linked(m,i,j)}
SumRow(r) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k-1)+r[k] IN S(Len(r))
Few(m) == (\A i \in Sensors(m) : \A j \in Sensors(m) : m[i][j] < 1000)
(* a state where nothing is left *)
AtEnd(m,s) == LET d == Dist(m,Len(m)-1) IN
   /\ s.done = Reach(m,{1})
   /\ \A i \in s.done : s.cost[i] = d[i]
   /\ s.n = Cardinality(s.done)-1
   /\ Few(m) => \A i \in s.done : i \in Layer(m,s.hops[i]) /\ (s.hops[i] > 0 => i \notin Layer(m,s.hops[i]-1))
(* ------ reports <<to,from>> (0-based), replayed from <s> *)
RECURSIVE Replay(_,_,_)
Replay(m,s,r) == IF r = <<>> THEN [ok |-> TRUE, s |-> s] ELSE LET e == <<r[1][2]+1,r[1][1]+1>> IN
   IF e \in Steps(m,s) THEN Replay(m,Take(m,s,e),Tail(r)) ELSE [ok |-> FALSE, s |-> s]
=============================================================================
