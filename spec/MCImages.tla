------------------------------ MODULE MCImages ------------------------------
EXTENDS Images, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Kind == <<"save","save","load","load","map","map">>[1 + Pick(1,6)]
Big(i,m) == (P(200 + i)*P(900 + 3*i) + P(500+2*i)) % m
(* ---- writing ---- *)
Lays == <<"dense","padded","reversed","repeated","everyother","inside","columns">>
What == IF Pick(5,12) = 0 THEN <<"i32","f64","u8x4","u8x1","u16x3","list","u8x1d","bool","i8","bgrcolumns">>[1 + Pick(6,10)] ELSE <<"u8","u16","bgr">>[1 + Pick(6,3)]
Exts == << <<".png",".png">>, <<".png",".PNG">>, <<".pgm",".pgm">>, <<".pgm",".Pgm">>, <<".ppm",".ppm">>, <<".jpg",".jpg">>, <<".jpg",".JPG">>, <<".ppm",".PPM">>,
           <<".bmp",".bmp">>, <<"jpeg",".jpeg">>, <<".pn",".pn">> >>
SaveCase == LET what == What lay == Lays[1 + Pick(4,7)]
                w == IF Pick(7,30) = 0 THEN 0 ELSE 1 + Pick(8,7)
                h == IF Pick(9,30) = 0 THEN 0 ELSE 1 + Pick(10,6)
                ext == IF Pick(21,3) = 0 THEN Exts[1 + Pick(11,11)] ELSE IF what = "bgr" THEN Exts[<<1,2,5,6,8>>[1 + Pick(11,5)]] ELSE IF what = "u8" THEN Exts[<<1,2,3,4,6,7>>[1 + Pick(11,6)]] ELSE Exts[1 + Pick(11,4)]
                nch == Channels(what) top == IF what = "u16" THEN 65536 ELSE 256
                smooth == ext[1] = ".jpg"
                pix(y,x,ch) == IF smooth THEN 40 + 60*((ch + Pick(12,3)) % 3) + 3*x + 2*y
                               ELSE IF Pick(13,4) = 0 THEN <<0,top-1,1,top \div 2>>[1 + Big(31*y+7*x+ch,4)] ELSE Big(31*y+7*x+ch,top)
                row(y) == IF lay = "repeated" THEN 0 ELSE y IN
   [kind |-> "save", what |-> what, w |-> w, h |-> h, layout |-> IF what \in Images THEN lay ELSE "dense", ext |-> ext[1], suffix |-> ext[2],
    short |-> IF Pick(14,25) = 0 THEN 1 ELSE 0, dir |-> IF Pick(15,25) = 0 THEN "missing" ELSE "there", before |-> Pick(16,2), pad |-> 1 + Pick(17,4),
    pix |-> IF w*h = 0 THEN <<>> ELSE [i \in 1..(w*h*nch) |-> pix(row((i-1) \div (w*nch)),((i-1) \div nch) % w,(i-1) % nch)]]
(* columns of a single column, or of a single row, are not apart *)
SaveGood(c) == (c.layout = "columns" => c.w >= 2 /\ c.h >= 2) /\ (c.layout = "repeated" => c.w >= 2)
(* ---- reading ---- *)
Ts == <<"gray8","gray8","gray16","gray16","rgb8","rgb8","rgba8","graya8","rgb16","gray1","gray2","gray4","palette">>
Reqs == << <<0,0>>, <<-1,-1>>, <<8,1>>, <<8,1>>, <<16,1>>, <<24,3>>, <<24,3>>, <<0,-1>> >>
BadReqs == << <<8,3>>, <<24,1>>, <<16,3>>, <<8,0>>, <<0,1>>, <<0,3>>, <<24,-1>>, <<32,4>>, <<1,1>>, <<8,2>> >>
LoadCase == LET t == Ts[1 + Pick(3,13)] w == 1 + Pick(4,9) h == 1 + Pick(5,6) nch == IF t = "palette" THEN 1 ELSE FileChannels(t)
                pnm == IF t \in {"gray8","gray16","rgb8"} THEN Pick(6,3) = 0 ELSE FALSE
                top == CASE t = "gray16" -> IF Pick(7,3) = 0 THEN 65536 ELSE 30 + Pick(8,3000) [] t = "rgb16" -> 65536 [] t = "gray1" -> 2 [] t = "gray2" -> 4 [] t = "gray4" -> 16 [] t = "palette" -> 5 [] OTHER -> 256
                base == IF t = "gray16" /\ top < 65536 THEN Pick(9,60000) ELSE 0
                order == <<"any","up","down","constant">>[1 + Pick(10,4)] nn == w*h*nch
                (* the extremes may come in any order *)
                v(i) == CASE order = "any" -> Big(i,top) [] order = "constant" -> Big(1,top) [] order = "up" -> ((top-1)*(i-1)) \div (IF nn = 1 THEN 1 ELSE nn) [] OTHER -> ((top-1)*(nn-i)) \div (IF nn = 1 THEN 1 ELSE nn) IN
   [kind |-> "load", type |-> t, container |-> IF pnm THEN "pnm" ELSE "png", filter |-> Pick(11,6), w |-> w, h |-> h, comment |-> Pick(16,2),
    broken |-> IF Pick(12,10) = 0 THEN <<"missing","empty","garbage","truncated","directory">>[1 + Pick(13,5)] ELSE "no",
    pix |-> [i \in 1..nn |-> base + v(i)], palette |-> IF t = "palette" THEN [i \in 1..15 |-> Big(400+i,256)] ELSE <<>>,
    req |-> IF Pick(14,10) = 0 THEN BadReqs[1 + Pick(15,10)] ELSE Reqs[1 + Pick(15,8)], how |-> Pick(17,3)]
(* a truncated image of a few bytes may happen to be complete *)
LoadGood(c) == c.broken = "truncated" => c.container = "png" /\ c.w*c.h > 3
(* ---- color maps ---- *)
DTypes == <<"int8","uint8","int16","uint16","int32","uint32","int64","uint64","float32","float64">>
MapCase == LET d == DTypes[1 + Pick(3,10)] signed == d \notin {"uint8","uint16","uint32","uint64"}
               w == 1 + Pick(4,9) h == 1 + Pick(5,4)
               (* the range of the map starts at base*unit and has the length 24*step*unit *)
               range == <<"small","small","wide","full">>[1 + Pick(6,4)]
               lo == IF Pick(8,2) = 0 THEN "given" ELSE "auto" hi == IF Pick(9,2) = 0 THEN "given" ELSE "auto"
               wide(k) == IF lo = "auto" /\ hi = "auto" THEN k ELSE k
               kk(i) == IF range = "full" THEN Big(i,25) ELSE (IF lo = "given" THEN -Pick(10,3) ELSE 0) + Big(i,25 + (IF lo = "given" THEN Pick(10,3) ELSE 0) + (IF hi = "given" THEN Pick(11,3) ELSE 0))
               size == w*h
               (* with automatic bounds the extremes are in the array *)
               at1 == 1 + Pick(12,size) at2 == 1 + ((at1 + Pick(13,size)) % size)
               ks == [i \in 1..size |-> IF lo = "auto" /\ i = at1 THEN 0 ELSE IF hi = "auto" /\ i = at2 THEN 24 ELSE kk(i)] IN
   [kind |-> "map", dtype |-> d, w |-> w, h |-> h, range |-> range, lo |-> lo, hi |-> hi, k |-> ks,
    step |-> IF d \in {"int8","uint8"} THEN 1 + Pick(14,8) ELSE 1 + Pick(14,90), base |-> IF signed THEN <<-100,-90,-12,0,-500>>[1 + Pick(15,IF d = "int8" THEN 4 ELSE 5)] ELSE <<10,20,3>>[1 + Pick(15,3)],
    defaults |-> IF Pick(16,4) = 0 THEN 1 ELSE 0,
    formulae |-> IF Pick(16,4) = 0 THEN <<7,5,15>> ELSE [i \in 1..3 |-> IF Pick(17+i,40) = 0 THEN <<37,-37,100>>[1 + Pick(20,3)] ELSE Pick(17+i,73) - 36],
    layout |-> <<"dense","padded","reversed","everyother">>[1 + Pick(21,4)], shape |-> <<"2","2","2","1","0","3">>[1 + Pick(22,6)], rowapart |-> IF Pick(23,25) = 0 THEN 1 ELSE 0,
    out |-> <<"none","dense","padded","padded","reversed">>[1 + Pick(24,5)], pad |-> 1 + Pick(25,5)]
MapGood(c) == LET top == IF c.dtype = "int8" THEN 127 ELSE 255 IN
   /\ c.lo = "auto" => MinOf(c.k) >= 0 /\ \E i \in DOMAIN c.k : c.k[i] = 0
   /\ c.hi = "auto" => MaxOf(c.k) <= 24 /\ \E i \in DOMAIN c.k : c.k[i] = 24
   /\ c.dtype \in {"int8","uint8"} => c.step*26 + c.base <= top /\ c.base - 2*c.step >= (IF c.dtype = "int8" THEN -128 ELSE 0)
   /\ c.dtype \in {"uint16","uint32","uint64"} => c.base >= 2*c.step
   /\ c.rowapart = 1 => c.w >= 2 /\ c.h >= 2 /\ c.shape = "2"
   /\ c.shape = "0" => c.w*c.h = 1
   /\ c.shape = "1" => c.h = 1
   /\ c.shape \in {"0","1"} => c.out = "none"
   (* 64-bit bounds cannot be given exactly *)
   /\ c.range = "full" /\ c.dtype \in {"int64","uint64"} => c.lo = "auto" /\ c.hi = "auto"
   /\ c.range = "full" => c.dtype \notin {"int8","uint8","float64"}
   /\ c.shape = "3" => c.h >= 2 /\ (c.lo = "given" /\ c.hi = "given")
Case == CASE Kind = "save" -> SaveCase [] Kind = "load" -> LoadCase [] OTHER -> MapCase
Good(c) == CASE c.kind = "save" -> SaveGood(c) [] c.kind = "load" -> LoadGood(c) [] OTHER -> MapGood(c)
Refused(c) == CASE c.kind = "save" -> SaveRefused(c) [] c.kind = "load" -> LoadRefused(c,c.req) [] OTHER -> MapRefused(c)
Laws == LET c == Case IN
   CASE c.kind = "save" /\ ~SaveRefused(c) ->
          (* what was written reads back the same, unasked or as what it is *)
          LET t == IF c.what = "bgr" THEN "rgb8" ELSE IF c.what = "u16" THEN "gray16" ELSE "gray8"
              f == [type |-> t, w |-> c.w, h |-> c.h, pix |-> Stored(c).pix, palette |-> <<>>, broken |-> "no"] IN
          /\ ~LoadRefused(f,<<0,0>>) /\ Expected(f,<<0,0>>) = c.pix
          /\ c.what = "bgr" => Swap(Swap(c.pix)) = c.pix
     [] c.kind = "load" /\ ~LoadRefused(c,c.req) /\ (c.type = "gray16" => ~Constant(c.pix)) ->
          LET e == Expected(c,c.req) t == Target(c,c.req) IN
          /\ Len(e) = c.w*c.h*t[2] /\ \A i \in DOMAIN e : e[i] >= 0 /\ e[i] <= (IF t[1] = 16 THEN 65535 ELSE 255)
          /\ NativeOf(c.type) = <<16,1>> /\ t = <<8,1>> => MinOf(e) = 0 /\ MaxOf(e) = 255
     [] c.kind = "map" -> \A i \in 1..3 : KnownFormula(c.formulae[i]) =>
          /\ \A k \in 0..24 : Level(c.formulae[i],k) \in 0..M
          /\ c.formulae[i] > 0 => \A k \in 0..24 : Level(-c.formulae[i],k) = Level(c.formulae[i],24-k)
     [] OTHER -> TRUE
Export == Good(Case) => PrintT("CASE " \o ToJson([c |-> Case, refused |-> IF Refused(Case) THEN 1 ELSE 0]))
Init == n \in 1..N
Next == FALSE /\ n' = n
=============================================================================
