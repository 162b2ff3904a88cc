--------------------------- MODULE MCCornerTools ---------------------------
EXTENDS CornerTools, Json
CONSTANTS Edits, Stride, Seed
VARIABLES a, n, h
Full(w,ht,o) == [k \in 1..(w*ht) |-> <<(4*((k*7+o*13)%40))+(8*o)+(k%3), (4*((k*11+o*5)%30))+3, 4*((k+o)%3)>>]
Img(nm,w,ht,o) == [name |-> nm, rows |-> Full(w,ht,o)]
Imgs(w,ht) == <<Img("img1-cam0.png",w,ht,0),Img("img2-cam1.png",w,ht,1),Img("img1-cam1.png",w,ht,2),Img("img3-cam0.png",w,ht,3),Img("img4-cam0.jpg",w,ht,4)>>
C0 == [tool |-> "cull", mode |-> "left", v |-> 70, where |-> <<>>, size |-> <<>>, W |-> 0, H |-> 0, re |-> <<>>, legend |-> 0, imgs |-> Imgs(3,2), n |-> 0, r90 |-> <<>>, r180 |-> <<>>, r270 |-> <<>>]
Bases == { C0,
  [C0 EXCEPT !.mode = "rad", !.v = 41, !.size = <<40,30>>],
  [C0 EXCEPT !.mode = "rad", !.v = -47, !.size = <<40,30>>],
  [C0 EXCEPT !.mode = "rad", !.v = 50, !.where = <<55,42>>],
  [C0 EXCEPT !.mode = "board", !.v = 5, !.W = 4, !.H = 3, !.imgs = Imgs(4,3)],
  [C0 EXCEPT !.mode = "board", !.v = 5, !.W = 3, !.imgs = Imgs(3,3)],
  [C0 EXCEPT !.tool = "rotate", !.n = 3, !.imgs = Imgs(3,3), !.r90 = <<"cam1">>],
  [C0 EXCEPT !.tool = "rotate", !.n = 2, !.imgs = Imgs(2,2), !.r180 = <<"^img1">>, !.r270 = <<"jpg$">>],
  [C0 EXCEPT !.tool = "random", !.mode = "random", !.v = 1, !.W = 3, !.imgs = Imgs(3,3)],
  [C0 EXCEPT !.tool = "random", !.mode = "random", !.v = 2, !.W = 4, !.H = 3, !.imgs = SubSeq(Imgs(4,3),1,4)] }
Init == a \in Bases /\ n = 0 /\ h = Seed*37 + Len(a.tool)*5 + a.v*3 + a.W
Hh(x) == h' = (h*131 + x*7 + 3) % 9973
Drop(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Set(k,v,x) == a[k] # v /\ a' = [a EXCEPT ![k] = v] /\ Hh(x)
Res == <<"cam0","cam1","^img1","jpg$","^img","img4-cam0.jpg$","none">>
Rows(im) == DOMAIN im.rows
MISS == <<DASH,DASH,DASH>>
Next == n < Edits /\ (n = 0 \/ h % Stride = Seed % Stride) /\ n' = n+1 /\
  \/ \E i \in DOMAIN a.imgs : \E r \in Rows(a.imgs[i]) : a.imgs[i].rows[r] # MISS /\ a' = [a EXCEPT !.imgs[i].rows[r] = MISS] /\ Hh(i+7*r)
  \/ \E i \in DOMAIN a.imgs : \E r \in Rows(a.imgs[i]) : \E t \in {DASH,NEGV,0,12} : a' = [a EXCEPT !.imgs[i].rows[r][3] = t] /\ Hh(200+i+7*r+t)
  \/ \E i \in DOMAIN a.imgs : \E r \in Rows(a.imgs[i]) : \E f \in 1..2 : \E t \in {NEGV,0,400,61} : a.imgs[i].rows[r] # MISS /\ a' = [a EXCEPT !.imgs[i].rows[r][f] = t] /\ Hh(400+i+7*r+t+100*f)
  \/ \E i \in DOMAIN a.imgs : \E m \in 1..3 : a' = [a EXCEPT !.imgs[i].rows = [k \in DOMAIN @ |-> IF (k*m + i) % 3 = 0 THEN MISS ELSE @[k]]] /\ Hh(700+i+7*m)
  \/ \E i \in DOMAIN a.imgs : a' = [a EXCEPT !.imgs[i].rows = <<MISS>>] /\ Hh(800+i)
  \/ \E i \in DOMAIN a.imgs : Len(a.imgs[i].rows) > 2 /\ a' = [a EXCEPT !.imgs[i].rows = Tail(@)] /\ Hh(820+i)
  \/ \E i \in DOMAIN a.imgs : Len(a.imgs) > 1 /\ a' = [a EXCEPT !.imgs = Drop(@,i)] /\ Hh(840+i)
  \/ \E i \in 1..(Len(a.imgs)-1) : a' = [a EXCEPT !.imgs = [@ EXCEPT ![i] = a.imgs[i+1], ![i+1] = a.imgs[i]]] /\ Hh(860+i)
  \/ a.tool # "rotate" /\ \E v \in (IF a.tool = "random" THEN 0..4 ELSE {-70,-47,1,3,5,7,9,13,33,61,99,161}) : (a.mode # "board" \/ v > 0) /\ Set("v",v,900+v)
  \/ a.tool # "rotate" /\ \E m \in {"left","rad","board","two","zero"} : a.tool = "cull" /\ (m \in {"left","board"} => a.v > 0) /\ Set("mode",m,1000+Len(m))
  \/ a.tool = "cull" /\ \E w \in { <<>>, <<0,0>>, <<101,-30>>, <<60,60>> } : Set("where",w,1100+(IF w = <<>> THEN 7 ELSE w[1]))
  \/ a.tool = "cull" /\ \E w \in { <<>>, <<30,40>>, <<80,60>>, <<36,15>> } : Set("size",w,1300+(IF w = <<>> THEN 7 ELSE w[1]))
  \/ a.tool # "rotate" /\ \E w \in 0..4 : Set("W",w,1300+w)
  \/ a.tool # "rotate" /\ \E w \in 0..4 : Set("H",w,1400+w)
  \/ a.tool = "cull" /\ \E w \in 1..2 : Set("legend",w,1500+w)
  \/ a.tool # "rotate" /\ \E r \in DOMAIN Res : a' = [a EXCEPT !.re = Append(@,Res[r])] /\ Hh(1600+r)
  \/ a.tool = "rotate" /\ \E k \in {"r90","r180","r270"} : \E r \in DOMAIN Res : a' = [a EXCEPT ![k] = Append(@,Res[r])] /\ Hh(1700+r+10*Len(k)*Len(a.r90))
  \/ a.tool = "rotate" /\ \E k \in {"r90","r180","r270"} : Set(k,<<>>,1800+Len(k))
  \/ a.tool = "rotate" /\ \E w \in 1..4 : a' = [a EXCEPT !.n = w, !.imgs = Imgs(w,w)] /\ Hh(1900+w)
Decided == CASE a.tool = "cull" -> ~OnLimit(a) /\ (a.mode = "rad" /\ a.v < 0 /\ a.size # <<>> => Rad(a) > 0)
             [] a.tool = "rotate" -> (\A i \in DOMAIN a.imgs : Cardinality(Turns(a,a.imgs[i])) <= 1)
             [] OTHER -> RandOk(a) => ~HalfWay(a)
Pick == n < 2 \/ (h + n) % 5 = 0
Laws == Pick => Laws0(a)
Export == (Pick /\ Decided) => PrintT("CASE " \o ToJson([what |-> "tools", a |-> a]))
=============================================================================
