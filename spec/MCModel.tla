------------------------------- MODULE MCModel ------------------------------
(* Sequences of operations on two camera models. The laws are checked for every
   operation in every state reached. Which sequences are extended is chosen by a hash;
   the groups of operations are chosen in turn, then one of the group *)
EXTENDS Model, Json
CONSTANTS Depth, Fan, Seed
VARIABLES ms, ops, h
vars == <<ms,ops,h>>
Start == << <<>>, <<>> >>
Init == ms = Start /\ ops = <<>> /\ h = Seed % 9973
Mix(a,b) == (a*131 + b*7 + 3) % 9973
(* a group of operations, then one of them that makes sense here, starting from a place given by the hash *)
RECURSIVE Pick(_,_,_)
Pick(g,i,n) == LET G == AllGroups[1 + (g % NGroups)][2]  o == G[1 + (i % Len(G))] IN
   IF n > 3 THEN Pick(g+1,i,0)
   ELSE IF Applicable(ms,o) /\ (Len(ops) = 0 => o.op \in {"new","newopt"}) THEN o ELSE Pick(g,i+1,n+1)
Next == /\ Len(ops) < Depth
        /\ \E f \in 1..(IF Len(ops) = 0 THEN 30 ELSE Fan) :
             LET g == Mix(Mix(h,f),Len(ops))
                 o == Pick(Mix(g,5),Mix(g,17),0) IN
             /\ ops' = Append(ops,o)
             /\ ms' = Apply(ms,o).m
             /\ h' = g
Live == {k \in 1..2 : ms[k] # <<>>}
Coherent(m) == /\ m.lens \in GoodLens /\ m.size \in {1,2} /\ m.pose \in Poses /\ m.reg \in {-1,0,1,2,4}
               /\ (m.opt = 0 <=> m.ii = None) /\ (m.opt = 0 <=> m.ie = None)
Laws == /\ \A k \in Live : Coherent(ms[k][1])
        /\ ms = Run(Start,ops)
        /\ \A o \in (IF Len(ops) <= Depth-2 THEN AllOps ELSE {}) : Applicable(ms,o) => LET r == Apply(ms,o) IN
              /\ (r.err => r.m = ms)                                                \* a rejected operation changes nothing
              /\ r.m[3-o.k] = ms[3-o.k]                                             \* the models are independent
              /\ \A k \in 1..2 : r.m[k] # <<>> => Coherent(r.m[k][1])
              /\ (o.op \in {"pose"} => r.m[o.k][1].opt = ms[o.k][1].opt)            \* moving a camera keeps its optimization inputs
              /\ (o.op = "intr" /\ ~r.err /\ r.m # ms => r.m[o.k][1].reg = -1)
Export == Len(ops) = Depth => PrintT("CASE " \o ToJson(ops))
=============================================================================
