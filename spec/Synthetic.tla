------------------------------ MODULE Synthetic ------------------------------
(* Made-up data: observations that agree perfectly with a given solution, and
   observations of boards at random poses. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* a pixel is seen if it is inside of the imager; q: thousandths of pixels *)
Seen(q,size) == q[1] >= 0 /\ q[2] >= 0 /\ q[1] <= 1000*(size[1]-1) /\ q[2] <= 1000*(size[2]-1)
Clear(q,size) == \A k \in {1,2} : LET e == 1000*(size[k]-1) IN (q[k] < -2 \/ q[k] > 2) /\ (q[k] < e - 2 \/ q[k] > e + 2)
NSeen(qs,size) == Cardinality({i \in DOMAIN qs : Seen(qs[i],size)})
Enough(which,ns,n) == CASE which = "all-cameras-must-see-full-board" -> \A i \in DOMAIN ns : ns[i] = n
   [] which = "some-cameras-must-see-full-board" -> \E i \in DOMAIN ns : ns[i] = n
   [] which = "all-cameras-must-see-half-board" -> \A i \in DOMAIN ns : 2*ns[i] >= n
   [] which = "some-cameras-must-see-half-board" -> \E i \in DOMAIN ns : 2*ns[i] >= n
=============================================================================
