----------------------------- MODULE MCCorners -----------------------------
EXTENDS Corners, Json
CONSTANTS Edits, Stride, Seed
VARIABLES a, n, h
Im(d,b) == [d |-> d, b |-> b, k |-> "full", ed |-> <<>>]
G2 == << <<"frame","-cam0.jpg">>, <<"frame","-cam1.jpg">> >>
B1 == [W |-> 3, H |-> 2, kind |-> "level", wcol |-> TRUE, min |-> -1, globs |-> G2, src |-> "obj", prefix |-> "", imgdir |-> "", exists |-> <<>>, excl |-> <<>>, rc |-> 0, jobs |-> 1, fmt |-> 0,
       imgs |-> <<Im("","frame7-cam0.jpg"),Im("","frame7-cam1.jpg"),Im("","frame10-cam1.jpg"),Im("","frame9-cam0.jpg"),Im("","frame11-cam0.jpg"),Im("","frame11-cam1.jpg")>>]
B2 == [B1 EXCEPT !.globs = << <<"","">> >>, !.imgs = <<Im("","b.png"),Im("","a.png"),Im("","img12.png")>>, !.src = "cwd", !.W = 2, !.H = 3]
B3 == [B1 EXCEPT !.globs = << <<"","/l/img","">>, <<"","/r/","">> >>, !.imgs = <<Im("x/r/","img001.png"),Im("x/l/","img002.png"),Im("x/l/","img003.png"),Im("x/r/","img002.png"),Im("x/r/","img000.png")>>, !.src = "sub", !.kind = "weight"]
B4 == [B1 EXCEPT !.globs = << <<"/data/f","a.jpg">>, <<"/data/f","b.jpg">>, <<"","c.jpg">> >>, !.imgs = <<Im("/data/","f3a.jpg"),Im("/data/","f03b.jpg"),Im("/data/","f4a.jpg"),Im("/data/","f02b.jpg"),Im("./","f3c.jpg"),Im("","f5c.jpg")>>, !.kind = "none"]
B5 == [B1 EXCEPT !.src = "detect", !.W = 2, !.H = 2, !.min = 2]
Bases == {B1,B2,B3,B4,B5}
Init == a \in Bases /\ n = 0 /\ h = Seed*37 + Len(a.globs)*5 + Len(a.imgs)
Hh(x) == h' = (h*131 + x*7 + 3) % 9973
Drop(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Swap(s,i) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]]
Toks == <<NEGV,DASH,WORD,0,1,2,4,8,12,20,50,4001>>
Dirs == <<"","./","a/","/data/","x/l/">>
SubBases == <<"frame9-cam0.jpg","frame009-cam1.jpg","f5a.jpg","other.jpg","frame8-cam1.jpg">>
Kinds == <<"none","one","short","long","full">>
Set(k,v,x) == a[k] # v /\ a' = [a EXCEPT ![k] = v] /\ Hh(x)
SetImg(i,k,v,x) == a.imgs[i][k] # v /\ a' = [a EXCEPT !.imgs[i][k] = v] /\ Hh(x)
AddEd(i,e,x) == a' = [a EXCEPT !.imgs[i].ed = Append(SelectSeq(@,LAMBDA y : <<y[1],y[2]>> # <<e[1],e[2]>>),e)] /\ Hh(x)
Next == n < Edits /\ (n = 0 \/ h % Stride = Seed % Stride) /\ n' = n+1 /\
  \/ \E i \in DOMAIN a.imgs : \E k \in DOMAIN Kinds : SetImg(i,"k",Kinds[k],i+10*k)
  \/ \E i \in DOMAIN a.imgs : \E k \in DOMAIN Dirs : SetImg(i,"d",Dirs[k],100+i+10*k)
  \/ \E i \in DOMAIN a.imgs : \E k \in DOMAIN SubBases : SetImg(i,"b",SubBases[k],200+i+10*k)
  \/ \E i \in DOMAIN a.imgs : \E r \in 1..(a.W*a.H) : \E f \in 1..3 : \E t \in DOMAIN Toks :
        (f = 3 /\ a.kind = "level" => Toks[t] \notin {1,2,50,4001}) /\ AddEd(i,<<r,f,Toks[t]>>,300+i+7*r+50*f+211*t)
  \/ \E i \in DOMAIN a.imgs : \E r \in 1..(a.W*a.H) : \E f \in {0,1,2,3,4} : AddEd(i,<<r,0,f>>,3000+i+7*r+50*f)
  \/ \E i \in DOMAIN a.imgs : \E m \in 1..3 :     \* several undetected corners
        a' = [a EXCEPT !.imgs[i].ed = [r \in 1..m |-> <<1+((r*2+i)%(a.W*a.H)),1+(r%2),DASH>>]] /\ Hh(3500+i+7*m)
  \/ \E i \in DOMAIN a.imgs : a' = [a EXCEPT !.imgs = Drop(@,i)] /\ Hh(3600+i)
  \/ \E i \in 1..(Len(a.imgs)-1) : a' = [a EXCEPT !.imgs = Swap(@,i)] /\ Hh(3700+i)
  \/ \E i \in DOMAIN a.imgs : a' = [a EXCEPT !.excl = Append(@,Name(a.imgs[i]))] /\ Hh(3800+i)
  \/ \E i \in DOMAIN a.imgs : ~IsAbs(a.imgs[i]) /\ a' = [a EXCEPT !.exists = Append(@,a.imgs[i].b)] /\ Hh(3900+i)
  \/ \E v \in -1..6 : Set("min",v,4000+v)
  \/ \E v \in {"level","weight","none","levels"} : v # "level" /\ Set("kind",v,4100+Len(v))
  \/ Set("wcol",~a.wcol,4200)
  \/ \E v \in {"obj","fobj","cwd","sub","abs","nofile","dir"} : a.src # "detect" /\ Set("src",v,4300+Len(v))
  \/ \E v \in {"/P","Q/R"} : Set("prefix",v,4400+Len(v))
  \/ \E v \in {"/l","l"} : a.prefix = "" /\ Set("imgdir",v,4500+Len(v))
  \/ \E v \in 1..4 : \E w \in 1..4 : a.src # "detect" /\ a.W # v /\ a' = [a EXCEPT !.W = v, !.H = w] /\ Hh(4600+v+7*w)
  \/ \E v \in 2..3 : \E w \in 2..3 : a.src = "detect" /\ a' = [a EXCEPT !.W = v, !.H = w] /\ Hh(4600+v+7*w)
  \/ \E v \in 1..3 : Set("fmt",v,4700+v)
  \/ a.src = "detect" /\ Set("rc",1,4800)
  \/ a.src = "detect" /\ Set("jobs",-1,4801)
  \/ a.globs = G2 /\ \E g \in { << <<"","">> >>, << <<"","-cam0.jpg">>, <<"","">> >>, << <<"frame","-cam1.jpg">>, <<"frame","-cam0.jpg">> >>, << <<"frame","-cam0.jpg">> >>, << <<"a/frame","-cam0.jpg">>, <<"frame","-cam1.jpg">>, <<"frame","">> >> } :
        a' = [a EXCEPT !.globs = g] /\ Hh(4900+Len(g)*5+Len(g[1][1]))
Pick == n < 2 \/ (h + n) % 11 = 0
Judged == Pick => LET d == Derive(a) IN Laws0(a,d) /\
  (Decided(a,d) => PrintT("CASE " \o ToJson([what |-> "corners", a |-> [a EXCEPT !.imgs = [i \in DOMAIN a.imgs |-> [name |-> Name(a.imgs[i]), rows |-> d.rows[i], d |-> a.imgs[i].d, b |-> a.imgs[i].b, k |-> a.imgs[i].k, ed |-> a.imgs[i].ed]]]])))
Laws == TRUE
Export == Judged
=============================================================================
