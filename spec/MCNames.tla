------------------------------ MODULE MCNames ------------------------------
(* Lists of image names of several cameras, by edits of the parts of the names. *)
EXTENDS Text, Json
CONSTANTS Edits, Stride, Seed
VARIABLES a, n, h
(* an image: prefix, digits, middle, suffix *)
Pre == <<"frame","img1-","a/b/","","20-","d12/i","x9y">>
Num == <<"1","2","10","11","100","007","01","110","21","12","3","1000000","999","x","">>
Post == <<".jpg","-cam0.jpg","-0-1.png","","-c1","a0",".j2k">>
Name(i) == Pre[i[1]] \o Num[i[2]] \o Post[i[3]]
Im(p,k,q) == <<p,k,q>>
Bases == { << <<Im(1,1,1),Im(1,2,1)>> >>, << <<Im(2,1,2),Im(2,3,2),Im(2,2,2)>>, <<Im(2,2,5),Im(2,3,5)>> >>,
           << <<Im(1,1,2),Im(1,3,2)>>, <<Im(1,3,5),Im(1,4,5)>> >>, << <<Im(4,6,6),Im(4,7,6)>>, <<Im(5,9,4),Im(5,10,4),Im(5,3,4)>>, <<Im(7,1,1)>> >> }
Init == a \in Bases /\ n = 0 /\ h = Seed*37 + Len(a) + Len(a[1])
Hh(x) == h' = (h*131 + x*7 + 3) % 9973
Drop(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Next == n < Edits /\ n' = n+1 /\
   \/ \E c \in DOMAIN a : \E i \in DOMAIN a[c] : \E k \in 1..Len(Num) : a[c][i][2] # k /\ a' = [a EXCEPT ![c][i][2] = k] /\ Hh(c+5*i+31*k)
   \/ \E c \in DOMAIN a : \E i \in DOMAIN a[c] : \E k \in 1..Len(Pre) : a[c][i][1] # k /\ a' = [a EXCEPT ![c][i][1] = k] /\ Hh(600+c+5*i+31*k)
   \/ \E c \in DOMAIN a : \E i \in DOMAIN a[c] : \E k \in 1..Len(Post) : a[c][i][3] # k /\ a' = [a EXCEPT ![c][i][3] = k] /\ Hh(1200+c+5*i+31*k)
   \/ \E c \in DOMAIN a : \E k \in 1..Len(Pre) : a' = [a EXCEPT ![c] = [i \in DOMAIN @ |-> <<k,@[i][2],@[i][3]>>]] /\ Hh(1500+c+31*k)
   \/ \E c \in DOMAIN a : \E k \in 1..Len(Post) : a' = [a EXCEPT ![c] = [i \in DOMAIN @ |-> <<@[i][1],@[i][2],k>>]] /\ Hh(1800+c+31*k)
   \/ \E c \in DOMAIN a : Len(a[c]) > 0 /\ a' = [a EXCEPT ![c] = Drop(@,Len(@))] /\ Hh(2000+c)
   \/ \E c \in DOMAIN a : Len(a[c]) > 0 /\ \E k \in 1..Len(Num) : a' = [a EXCEPT ![c] = @ \o <<Im(@[1][1],k,@[1][3])>>] /\ Hh(2100+c+31*k)
   \/ Len(a) > 1 /\ a' = Tail(a) /\ Hh(2500)
   \/ \E c \in DOMAIN a : a' = Append(a,[i \in DOMAIN a[c] |-> <<a[c][i][1],a[c][i][2],1+(a[c][i][3]%Len(Post))>>]) /\ Hh(2600+c)
Files == [c \in DOMAIN a |-> [i \in DOMAIN a[c] |-> Name(a[c][i])]]
Sel == n < 2 \/ (h + n) % Stride = 0
Laws == (Sel /\ AllDistinct(Files) /\ \A c \in DOMAIN Files : "" \notin Range(Files[c])) =>
  /\ \A c \in DOMAIN Files : Len(Files[c]) > 1 => Cardinality(Frames(Range(Files[c]))) <= 1
  /\ Mappable(Files) => \A m \in Mapping(Files) : m[2] >= 0 /\ m[3] \in 0..(Len(Files)-1)
Export == (Sel /\ AllDistinct(Files)) => PrintT("CASE " \o ToJson([what |-> "names", files |-> Files]))
=============================================================================
