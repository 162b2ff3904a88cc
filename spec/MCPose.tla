------------------------------- MODULE MCPose -------------------------------
(* A pose evolves by compositions and inversions. TLC checks the group laws on the
   reachable poses and exports the behaviours. *)
EXTENDS Pose, Json
CONSTANTS MaxOps, MaxSize, Stride, Seed
VARIABLES start, ops, P
vars == <<start,ops,P>>
Init == /\ start \in 1..NGens
        /\ ops = <<>>
        /\ P = Gens[start]
Next == /\ Len(ops) < MaxOps
        /\ \E o \in Ops : LET Q == Step(P,o) IN
             /\ Size(P) <= MaxSize /\ Fits(P,o,200000)
             /\ Size(Q) <= MaxSize
             /\ ops' = Append(ops,o)
             /\ P' = Q
        /\ UNCHANGED start
Small == Size(P) <= 100
Laws ==
  /\ Norm2(P.q) > 0 /\ P.d > 0
  /\ P = Run(Gens[start],ops)
  /\ Invert(Invert(P)) = P
  /\ Compose(P,Identity) = P /\ Compose(Identity,P) = P
  /\ (Size(P) <= 1000 => Compose(P,Invert(P)) = Identity)
  /\ (Norm2(P.q) <= 1000 => LET n == Norm2(P.q) M == Mat(P.q) IN
         /\ Det(M) = n*n*n
         /\ MM(M,Tr(M)) = << <<n*n,0,0>>, <<0,n*n,0>>, <<0,0,n*n>> >>)
  /\ (Small => \A g \in {2,3,6} : LET G == Gens[g] IN
         /\ Compose(Compose(G,P),G) = Compose(G,Compose(P,G))                  \* associative
         /\ Invert(Compose(G,P)) = Compose(Invert(P),Invert(G))
         /\ LET y == TransformR(P,<<1,2,-3>>,1) IN                             \* an action on points
               /\ TransformR(Compose(G,P),<<1,2,-3>>,1) = TransformR(G,y.t,y.d)
               /\ TransformInvR(P,y.t,y.d) = [t |-> <<1,2,-3>>, d |-> 1])
Hash == (Seed*7919 + start*31 + (IF Len(ops) >= 1 THEN ops[1][1]*17+ops[1][2]*5+ops[1][3]*3+ops[1][4]*101 ELSE 0)
         + (IF Len(ops) >= 2 THEN ops[2][1]*1009+ops[2][2]*53+ops[2][3]*57+ops[2][4]*211 ELSE 0)
         + (IF Len(ops) >= 3 THEN ops[3][1]*2003+ops[3][2]*59+ops[3][3]*67+ops[3][4]*307 ELSE 0)) % Stride
Export == Hash = 0 => PrintT("CASE " \o ToJson([start |-> start, ops |-> ops, q |-> P.q, d |-> P.d]))
=============================================================================
