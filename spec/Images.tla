------------------------------- MODULE Images -------------------------------
(* Images in files, and color-coded arrays: which arrays can be written to which files, what is then
   in the file, what is read from a file when some format is requested, which bytes of color each
   number becomes. Exact: integers only. *)
EXTENDS Integers, Sequences, TLC
RECURSIVE ISqrtR(_,_,_)
ISqrtR(v,a,b) == IF b - a <= 1 THEN a ELSE LET m == (a + b) \div 2 IN IF m*m <= v THEN ISqrtR(v,m,b) ELSE ISqrtR(v,a,m)
ISqrt(v) == ISqrtR(v,0,46340)
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
MinOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] >= x
(* ================================ writing ================================
   c.what: the array: "u8","u16","bgr" or something that is not an image
   c.pix: its numbers, row by row (bgr: 3 numbers per pixel); c.layout: how it lies in memory
   c.name: of the file; c.ext: its last 4 characters in lower case *)
Images == {"u8","u16","bgr"}
Layouts == {"dense","padded","reversed","repeated","everyother","inside"}
SaveRefused(c) ==
   \/ c.what \notin Images
   \/ c.w = 0 \/ c.h = 0
   \/ c.layout \notin Layouts            \* pixels of a row apart from each other
   \/ c.short = 1                         \* nothing before the extension
   \/ c.ext \notin {".png",".jpg",".pgm",".ppm"}
   \/ c.ext = ".jpg" /\ c.what = "u16"
   \/ c.ext = ".pgm" /\ c.what = "bgr"
   \/ c.ext = ".ppm" /\ c.what # "bgr"
   \/ c.dir = "missing"
(* such a refusal is known before the file is opened: what was there before stays *)
Swap(s) == [i \in DOMAIN s |-> s[3*((i-1) \div 3) + 3 - ((i-1) % 3)]]
Depth(what) == IF what = "u16" THEN 16 ELSE 8
Channels(what) == IF what = "bgr" THEN 3 ELSE 1
Format(ext) == CASE ext = ".png" -> "png" [] ext = ".jpg" -> "jpg" [] ext = ".pgm" -> "P5" [] OTHER -> "P6"
(* files have the red of each pixel first *)
Stored(c) == [fmt |-> Format(c.ext), w |-> c.w, h |-> c.h, depth |-> Depth(c.what), channels |-> Channels(c.what), pix |-> IF c.what = "bgr" THEN Swap(c.pix) ELSE c.pix]
(* ================================ reading ================================
   f: a file: [type, w, h, pix]; req: the requested <<bits per pixel, channels>> *)
Types == {"gray1","gray2","gray4","gray8","gray16","graya8","rgb8","rgba8","rgb16","palette"}
FileChannels(t) == CASE t \in {"rgb8","rgb16","palette"} -> 3 [] t = "rgba8" -> 4 [] t = "graya8" -> 2 [] OTHER -> 1
NativeOf(t) == CASE t \in {"gray1","gray2","gray4","gray8"} -> <<8,1>> [] t = "gray16" -> <<16,1>> [] t \in {"rgb8","rgba8","palette"} -> <<24,3>> [] OTHER -> <<0,0>>
Auto(req) == req[1] <= 0 /\ req[2] <= 0
Target(f,req) == IF Auto(req) THEN NativeOf(f.type) ELSE req
Readable(f) == NativeOf(f.type) # <<0,0>>
LoadRefused(f,req) ==
   \/ f.broken # "no"
   \/ ~Auto(req) /\ req \notin {<<8,1>>,<<16,1>>,<<24,3>>}
   \/ ~Readable(f)
   \/ LET n == NativeOf(f.type) t == Target(f,req) IN (t[1] = 16 /\ n[1] # 16) \/ (n[1] = 16 /\ t[1] = 24)
(* the pixels of the file as numbers 0..255 (0..65535) of each of its color channels *)
Levels(t) == CASE t = "gray1" -> 255 [] t = "gray2" -> 85 [] t = "gray4" -> 17 [] OTHER -> 1
Samples(f) == CASE f.type = "rgba8" -> [i \in 1..(3*f.w*f.h) |-> f.pix[4*((i-1) \div 3) + 1 + ((i-1) % 3)]]
                [] f.type = "palette" -> [i \in 1..(3*f.w*f.h) |-> f.palette[3*f.pix[1 + ((i-1) \div 3)] + 1 + ((i-1) % 3)]]
                [] OTHER -> [i \in DOMAIN f.pix |-> Levels(f.type)*f.pix[i]]
Luminance(r,g,b) == (77*r + 150*g + 29*b) \div 256
Constant(s) == MaxOf(s) = MinOf(s)
(* the whole range of the file is stretched to 0..255 *)
Stretch(s) == LET lo == MinOf(s) d == MaxOf(s) - lo IN [i \in DOMAIN s |-> (510*(s[i] - lo) + d) \div (2*d)]
(* so close to the middle between 2 numbers that rounding errors may decide *)
NearTie(x,lo,d) == LET m == (510*(x - lo) + d) % (2*d) IN m*500 < d \/ (2*d - m)*500 < d
Expected(f,req) == LET s == Samples(f) t == Target(f,req) n == NativeOf(f.type) IN
   CASE t = n -> IF n = <<24,3>> THEN Swap(s) ELSE s
     [] t = <<24,3>> -> [i \in 1..(3*Len(s)) |-> s[1 + ((i-1) \div 3)]]
     [] n = <<24,3>> -> [i \in 1..(Len(s) \div 3) |-> Luminance(s[3*i-2],s[3*i-1],s[3*i])]
     [] OTHER -> Stretch(s)
(* what may be read in place of the expected number *)
Agree(f,req,i,x,y) == LET t == Target(f,req) n == NativeOf(f.type) IN
   IF n = <<24,3>> /\ t = <<8,1>> THEN AbsI(x-y) <= 1
   ELSE IF n = <<16,1>> /\ t = <<8,1>> THEN AbsI(x-y) <= (IF NearTie(f.pix[i],MinOf(f.pix),MaxOf(f.pix)-MinOf(f.pix)) THEN 1 ELSE 0)
   ELSE x = y
(* ============================== color maps ===============================
   gnuplot's formulae, at x = k/24; all in millionths *)
M == 1000000
Sines == << 0,65403,130526,195090,258819,321439,382683,442289,500000,555570,608761,659346,707107,751840,793353,831470,866025,896873,923880,946930,965926,980785,991445,997859,1000000 >>
RECURSIVE Sin(_)
(* of u times 3.75 degrees *)
Sin(u) == IF u < 0 THEN -Sin(-u) ELSE IF u >= 96 THEN Sin(u - 96) ELSE IF u <= 24 THEN Sines[u+1] ELSE IF u <= 48 THEN Sines[49-u] ELSE -Sin(u - 48)
Cos(u) == Sin(u + 24)
(* the root of y millionths *)
Root(y) == (ISqrt(y*1000)*31623) \div 1000
X(k) == (M*k) \div 24
Formula(f,k) ==
  CASE f = 0 -> 0 [] f = 1 -> M \div 2 [] f = 2 -> M [] f = 3 -> X(k)
    [] f = 4 -> (M*k*k) \div 576
    [] f = 5 -> (((M*k*k) \div 576)*k) \div 24
    [] f = 6 -> (((M*k*k) \div 576)*k*k) \div 576
    [] f = 7 -> Root(X(k)) [] f = 8 -> Root(Root(X(k)))
    [] f = 9 -> Sin(k) [] f = 10 -> Cos(k)
    [] f = 11 -> AbsI(X(k) - M \div 2) [] f = 12 -> (M*(2*k-24)*(2*k-24)) \div 576
    [] f = 13 -> Sin(2*k) [] f = 14 -> AbsI(Cos(2*k)) [] f = 15 -> Sin(4*k) [] f = 16 -> Cos(4*k)
    [] f = 17 -> AbsI(Sin(4*k)) [] f = 18 -> AbsI(Cos(4*k)) [] f = 19 -> AbsI(Sin(8*k)) [] f = 20 -> AbsI(Cos(8*k))
    [] f = 21 -> 3*X(k) [] f = 22 -> 3*X(k) - M [] f = 23 -> 3*X(k) - 2*M
    [] f = 24 -> AbsI(3*X(k) - M) [] f = 25 -> AbsI(3*X(k) - 2*M)
    [] f = 26 -> (3*X(k) - M) \div 2 [] f = 27 -> (3*X(k) - 2*M) \div 2
    [] f = 28 -> AbsI(3*X(k) - M) \div 2 [] f = 29 -> AbsI(3*X(k) - 2*M) \div 2
    [] f = 30 -> (25*M*k) \div 192 - 781250          \* x*25/8/24 - .78125
    [] f = 31 -> 2*X(k) - 840000
    [] f = 32 -> IF 100*k <= 42*24 THEN 4*X(k) ELSE IF 100*k <= 92*24 THEN 1840000 - 2*X(k) ELSE (25*X(k)) \div 2 - 11500000
    [] f = 33 -> AbsI(2*X(k) - M \div 2) [] f = 34 -> 2*X(k) [] f = 35 -> 2*X(k) - M \div 2 [] OTHER -> 2*X(k) - M
Clip(y) == IF y < 0 THEN 0 ELSE IF y > M THEN M ELSE y
(* a negative formula: that of 1-x *)
Level(f,k) == Clip(IF f < 0 THEN Formula(-f,24-k) ELSE Formula(f,k))
KnownFormula(f) == f \in -36..36
MapRefused(c) == (\E i \in 1..3 : ~KnownFormula(c.formulae[i])) \/ c.rowapart = 1
(* c.k: the numbers of the array, in 24ths of the range of the color map: those outside are clipped *)
Clip24(k) == IF k < 0 THEN 0 ELSE IF k > 24 THEN 24 ELSE k
(* the color byte b of a level of y millionths *)
Byte(b,y) == AbsI(b*M - 255*y) <= M \div 2 + 60000
(* c.formulae: red, green, blue; each row of the output is blue, green, red *)
Colored(c,out) == /\ Len(out) = 3*Len(c.k)
                  /\ \A i \in DOMAIN c.k : \A ch \in 1..3 : Byte(out[3*(i-1) + ch],Level(c.formulae[4-ch],Clip24(c.k[i])))
=============================================================================
