---------------------------- MODULE CornerTools ----------------------------
(* The filters of corner files: which rows they change, and how.
   A file is a sequence of images [name, rows], a row is <<x,y,level>> in the tokens of Corners *)
EXTENDS Text
NEGV == -1
DASH == -2
Sq(x) == x*x
Contains(s,t) == \E i \in 0..(Len(s)-Len(t)) : StartsWith(Tail0(s,i),t)
(* regular expressions: "cam0" anywhere, "^img1" at the start, "png$" at the end *)
ReMatch(s,re) == IF StartsWith(re,"^") THEN StartsWith(s,Tail0(re,1))
                 ELSE IF EndsWith(re,"$") THEN EndsWith(s,SubSeq(re,1,Len(re)-1))
                 ELSE Contains(s,re)
AnyMatch(s,res) == \E r \in {res[i] : i \in DOMAIN res} : ReMatch(s,r)
Missing(row) == row[1] = DASH \/ row[2] = DASH
Q(t) == IF t = NEGV THEN -6 ELSE t     \* the number, in quarters
Sized(im) == Len(im.rows)
(* ---- cull: c.mode, c.v (quarters), c.where, c.size, c.W, c.H, c.re *)
Need(c) == /\ c.mode \in {"left","rad","board"}
           /\ c.mode = "board" => c.W > 0
           /\ c.mode = "rad" => (c.where # <<>> \/ c.size # <<>>) /\ (c.v < 0 => c.where = <<>>)
           /\ c.legend = 0
Diag(s) == CHOOSE d \in 0..(s[1]+s[2]) : Sq(d) = Sq(s[1]) + Sq(s[2])
Ctr(c) == IF c.where # <<>> THEN c.where ELSE <<2*(c.size[1]-1),2*(c.size[2]-1)>>
Rad(c) == IF c.v >= 0 THEN c.v ELSE 2*Diag(c.size) + c.v
(* by how much the limit is exceeded: > 0: to be culled *)
Over(c,im,k) == LET row == im.rows[k] IN
   CASE c.mode = "left" -> c.v - Q(row[1])
     [] c.mode = "rad" -> Sq(Q(row[1])-Ctr(c)[1]) + Sq(Q(row[2])-Ctr(c)[2]) - Sq(Rad(c))
     [] c.mode = "board" -> LET ix == (k-1)%c.W  iy == (k-1) \div c.W  h == (IF c.H > 0 THEN c.H ELSE c.W)
                            IN Sq(4*ix-2*(c.W-1)) + Sq(4*iy-2*(h-1)) - Sq(c.v)
Applies(c,im,k) == ~Missing(im.rows[k]) /\ (c.re = <<>> \/ AnyMatch(im.name,c.re))
CullRow(c,im,k) == IF Applies(c,im,k) /\ Over(c,im,k) > 0 THEN [im.rows[k] EXCEPT ![3] = DASH] ELSE im.rows[k]
Cull(c) == [i \in DOMAIN c.imgs |-> [name |-> c.imgs[i].name, rows |-> [k \in DOMAIN c.imgs[i].rows |-> CullRow(c,c.imgs[i],k)]]]
OnLimit(c) == Need(c) /\ \E i \in DOMAIN c.imgs : \E k \in DOMAIN c.imgs[i].rows : Applies(c,c.imgs[i],k) /\ Over(c,c.imgs[i],k) = 0
(* ---- rotate: c.n, c.r90, c.r180, c.r270. Where corner k (from 0) of the n x n board goes *)
To(n,deg,k) == LET ix == k%n  iy == k \div n IN
   CASE deg = 0 -> k [] deg = 90 -> (n-1-ix)*n + iy [] deg = 180 -> n*n-1-k [] deg = 270 -> ix*n + (n-1-iy)
Turns(c,im) == {d \in {90,180,270} : AnyMatch(im.name,CASE d = 90 -> c.r90 [] d = 180 -> c.r180 [] d = 270 -> c.r270)}
Turn(c,im) == IF Turns(c,im) = {} THEN 0 ELSE CHOOSE d \in Turns(c,im) : TRUE
Turned(c,im) == IF Sized(im) = 1 THEN im.rows
                ELSE [j \in DOMAIN im.rows |-> im.rows[CHOOSE k \in DOMAIN im.rows : To(c.n,Turn(c,im),k-1) = j-1]]
RotOk(c) == \A i \in DOMAIN c.imgs : Sized(c.imgs[i]) \in {1,c.n*c.n}
Rotate(c) == {[name |-> c.imgs[i].name, rows |-> Turned(c,c.imgs[i])] : i \in DOMAIN c.imgs}
(* ---- random: c.v (quarters), c.W, c.H *)
Plain(row) == IF Missing(row) \/ row[1] = NEGV \/ row[2] = NEGV \/ row[3] = DASH \/ row[3] = NEGV THEN <<0,0,DASH>> ELSE row
Min2(a,b) == IF a < b THEN a ELSE b
H(c) == IF c.H > 0 THEN c.H ELSE c.W
Usable(c,im) == Sized(im) = c.W*H(c) /\ Cardinality({k \in DOMAIN im.rows : Plain(im.rows[k])[3] # DASH}) > 2*Min2(c.W,H(c))
RandOk(c) == c.W > 0 /\ (\A i \in DOMAIN c.imgs : Sized(c.imgs[i]) \in {1,c.W*H(c)}) /\ c.re = <<>> /\ c.mode = "random"
             /\ \E i \in DOMAIN c.imgs : Usable(c,c.imgs[i])
NUsable(c) == Cardinality({i \in DOMAIN c.imgs : Usable(c,c.imgs[i])})
HalfWay(c) == ((4-c.v)*NUsable(c)) % 4 = 2
NKeep(c) == ((4-c.v)*NUsable(c) + 2) \div 4
Choice(c) == {[name |-> c.imgs[i].name, rows |-> [k \in DOMAIN c.imgs[i].rows |-> Plain(c.imgs[i].rows[k])]] : i \in {i \in DOMAIN c.imgs : Usable(c,c.imgs[i])}}
Laws0(c) == CASE c.tool = "cull" -> Need(c) => \A i \in DOMAIN c.imgs : \A k \in DOMAIN c.imgs[i].rows :
                     LET e == CullRow(c,c.imgs[i],k) IN e[1] = c.imgs[i].rows[k][1] /\ e[2] = c.imgs[i].rows[k][2] /\ e[3] \in {DASH,c.imgs[i].rows[k][3]}
              [] c.tool = "rotate" -> \A k \in 0..(c.n*c.n-1) :
                     /\ To(c.n,90,To(c.n,90,k)) = To(c.n,180,k) /\ To(c.n,90,To(c.n,180,k)) = To(c.n,270,k) /\ To(c.n,90,To(c.n,270,k)) = k
                     /\ LET ix == k%c.n  j == To(c.n,90,k) IN ix < c.n-1 => To(c.n,90,k+1) = j-c.n     \* neighbours stay neighbours
              [] OTHER -> RandOk(c) => NKeep(c) \in 0..NUsable(c) /\ (c.v = 0 => NKeep(c) = NUsable(c)) /\ (c.v = 4 => NKeep(c) = 0)
=============================================================================
