------------------------------- MODULE Polygon -------------------------------
(* Polygons with integer corners, and the points of a lattice that are inside *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* a polygon is a sequence of corners, not closed. Points are given in units of 1/S *)
S == 70
Nxt(p,i) == p[1 + (i % Len(p))]
Side(a,b,x) == (b[1]-a[1])*(x[2]-S*a[2]) - (b[2]-a[2])*(x[1]-S*a[1])
Between(u,v,w) == (u <= w /\ w <= v) \/ (v <= w /\ w <= u)
OnEdge(a,b,x) == Side(a,b,x) = 0 /\ Between(S*a[1],S*b[1],x[1]) /\ Between(S*a[2],S*b[2],x[2])
OnBoundary(p,x) == \E i \in DOMAIN p : OnEdge(p[i],Nxt(p,i),x)
(* a ray to the right of x crosses the edge *)
Crosses(a,b,x) == \/ (S*a[2] <= x[2] /\ x[2] < S*b[2] /\ Side(a,b,x) > 0)
                  \/ (S*b[2] <= x[2] /\ x[2] < S*a[2] /\ Side(a,b,x) < 0)
Inside(p,x) == Cardinality({i \in DOMAIN p : Crosses(p[i],Nxt(p,i),x)}) % 2 = 1
Simple(p) == LET n == Len(p) IN \* neighboring edges aside, no two edges meet
  /\ Cardinality({p[i] : i \in 1..n}) = n
  /\ \A i \in 1..n : \A j \in 1..n : (i < j) =>
      LET a == p[i] b == Nxt(p,i) c == p[j] d == Nxt(p,j)
          s1 == Side(a,b,<<S*c[1],S*c[2]>>) s2 == Side(a,b,<<S*d[1],S*d[2]>>) s3 == Side(c,d,<<S*a[1],S*a[2]>>) s4 == Side(c,d,<<S*b[1],S*b[2]>>)
          Touch == OnEdge(a,b,<<S*c[1],S*c[2]>>) \/ OnEdge(a,b,<<S*d[1],S*d[2]>>) \/ OnEdge(c,d,<<S*a[1],S*a[2]>>) \/ OnEdge(c,d,<<S*b[1],S*b[2]>>)
          X == ((s1 > 0 /\ s2 < 0) \/ (s1 < 0 /\ s2 > 0)) /\ ((s3 > 0 /\ s4 < 0) \/ (s3 < 0 /\ s4 > 0))
      IN IF j = i+1 \/ (i = 1 /\ j = n) THEN ~X /\ (IF j = i+1 THEN ~OnEdge(a,b,<<S*d[1],S*d[2]>>) /\ ~OnEdge(c,d,<<S*a[1],S*a[2]>>)
                                                   ELSE ~OnEdge(a,b,<<S*c[1],S*c[2]>>) /\ ~OnEdge(c,d,<<S*b[1],S*b[2]>>))
         ELSE ~X /\ ~Touch
Shift(p,d) == [i \in DOMAIN p |-> <<p[i][1]+d[1],p[i][2]+d[2]>>]
(* the lattice: points that are not on lines through corners, as far as possible *)
Pt(i,j) == << S*i + 21, S*j + 40 >>
Grid(lo,hi) == { Pt(i,j) : i \in lo..hi, j \in lo..hi }
InDiff(a,b,x) == Inside(a,x) /\ ~(b # <<>> /\ Inside(b,x))
Closed(p) == Len(p) > 0 /\ p[1] = p[Len(p)]
Close(p) == IF p = <<>> \/ Closed(p) THEN p ELSE Append(p,p[1])
=============================================================================
