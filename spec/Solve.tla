-------------------------------- MODULE Solve --------------------------------
(* A history of calls of the optimizer on one problem. Some of the board corners and points
   have residuals that no variable can change: e[m] = <<dx,dy>>, whole pixels. All the others fit
   perfectly at the solution. What outlier rejection does to the weights is then an exact computation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
In(w) == w > 0
Sq(x) == x*x
NIn(s) == Cardinality({m \in DOMAIN s.w : In(s.w[m])})
(* sum of squares of the residuals of the inlier corners *)
Sum2(w,e) == FoldLeft(LAMBDA a,m : IF In(w[m]) THEN a + Sq(w[m]*e[m][1]) + Sq(w[m]*e[m][2]) ELSE a, 0, [m \in 1..Len(w) |-> m])
(* a residual is more than k standard deviations: x^2 > k^2 S/(2 N). b is <<S,2N>> *)
Base(s) == << Sum2(s.w,s.e), 2*NIn(s) >>
Big(s,m) == LET a == Sq(s.w[m]*s.e[m][1]) b == Sq(s.w[m]*s.e[m][2]) IN IF a > b THEN a ELSE b
Over(s,b,k2) == {m \in DOMAIN s.w : In(s.w[m]) /\ Big(s,m)*b[2] > k2*b[1]}
Trigger(s) == Over(s,Base(s),25) # {}
Mark(s) == LET O == Over(s,Base(s),16) IN [s EXCEPT !.w = [m \in DOMAIN s.w |-> IF m \in O THEN -s.w[m] ELSE s.w[m]]]
RECURSIVE Reject(_)
Reject(s) == IF Trigger(s) THEN Reject(Mark(s)) ELSE s
(* equality somewhere on the way: not decidable with rounding *)
OnEdge(s) == LET b == Base(s) IN \E m \in DOMAIN s.w : In(s.w[m]) /\ (\E c \in 1..2, k2 \in {16,25} : Sq(s.w[m]*s.e[m][c])*b[2] = k2*b[1])
RECURSIVE Edge(_)
Edge(s) == OnEdge(s) \/ (Trigger(s) /\ Edge(Mark(s)))
(* operations: <<"solve",reject>>, <<"err",m,dx,dy>>: an observation is replaced, <<"flip",m>>: its weight is negated, <<"point",m,dx>>, <<"seed">>: start from elsewhere *)
Apply(s,o) == CASE o[1] = "solve" -> (IF o[2] = 1 THEN Reject(s) ELSE s)
                [] o[1] = "err" -> [s EXCEPT !.e[o[2]] = <<o[3],o[4]>>]
                [] o[1] = "flip" -> [s EXCEPT !.w[o[2]] = -@]
                [] o[1] = "point" -> [s EXCEPT !.pe[o[2]] = <<o[3],0>>]
                [] OTHER -> s
RECURSIVE Run(_,_,_)
Run(s,ops,k) == IF k = 0 THEN s ELSE Apply(Run(s,ops,k-1),ops[k])
(* the state is sum of squares: boards and points *)
Norm2X(s) == Sum2(s.w,s.e) + Sum2(s.pw,s.pe)
Nout(s) == {Cardinality({m \in DOMAIN s.w : s.w[m] < 0}), Cardinality({m \in DOMAIN s.w : s.w[m] <= 0})}
=============================================================================
