-------------------------------- MODULE Match --------------------------------
(* Finding the pixel of one image that looks like a given pixel of another. Pixels are
   small integers; coordinates in image 0 are in half pixels. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumF(_,_)
SumF(f,k) == IF k = 0 THEN 0 ELSE f[k] + SumF(f,k-1)
Sum(f) == SumF(f,Len(f))
MV(A,v) == <<A[1][1]*v[1]+A[1][2]*v[2], A[2][1]*v[1]+A[2][2]*v[2]>>
(* homographies q1 = A q0 + b: twice A and twice its inverse *)
Maps == [same |-> [A2 |-> <<<<2,0>>,<<0,2>>>>, I2 |-> <<<<2,0>>,<<0,2>>>>],
         twice |-> [A2 |-> <<<<4,0>>,<<0,4>>>>, I2 |-> <<<<1,0>>,<<0,1>>>>],
         half |-> [A2 |-> <<<<1,0>>,<<0,1>>>>, I2 |-> <<<<4,0>>,<<0,4>>>>],
         turn |-> [A2 |-> <<<<0,-2>>,<<2,0>>>>, I2 |-> <<<<0,2>>,<<-2,0>>>>],
         flip |-> [A2 |-> <<<<-2,0>>,<<0,2>>>>, I2 |-> <<<<-2,0>>,<<0,2>>>>],
         shear |-> [A2 |-> <<<<2,2>>,<<0,2>>>>, I2 |-> <<<<2,-2>>,<<0,2>>>>],
         wide |-> [A2 |-> <<<<4,0>>,<<0,2>>>>, I2 |-> <<<<1,0>>,<<0,2>>>>]]
(* the estimate of q1, in eighths of pixels; q0 in quarters, b in halves *)
Estimate(c) == LET v == MV(Maps[c.map].A2,c.q0) IN <<v[1] + 4*c.b[1], v[2] + 4*c.b[2]>>
(* the top-left pixel of the template, in image 1: centered at the estimate *)
Doubt(c) == \E i \in {1,2} : (Estimate(c)[i] - 4*(c.size[i]-1) + 4) % 8 = 0
TMin(c) == [i \in {1,2} |-> (Estimate(c)[i] - 4*(c.size[i]-1) + 4) \div 8]
(* the pixel of image 0 that corresponds to a pixel of image 1, in halves *)
Source(c,q1) == LET M == Maps[c.map].I2 v == MV(M,q1) s == MV(M,c.b) IN <<v[1] - (s[1] \div 2), v[2] - (s[2] \div 2)>>
Half(c) == LET s == MV(Maps[c.map].I2,c.b) IN s[1] % 2 = 0 /\ s[2] % 2 = 0
W(im) == Len(im[1])
H(im) == Len(im)
TEnds(c) == LET m == TMin(c) IN <<m, <<m[1]+c.size[1]-1, m[2]>>, <<m[1], m[2]+c.size[2]-1>>, <<m[1]+c.size[1]-1, m[2]+c.size[2]-1>> >>
Out1(c) == LET m == TMin(c) IN m[1] < 0 \/ m[2] < 0 \/ m[1]+c.size[1] > W(c.im1) \/ m[2]+c.size[2] > H(c.im1)
Out0(c) == \E k \in 1..4 : LET s == Source(c,TEnds(c)[k]) IN s[1] < 0 \/ s[2] < 0 \/ s[1] > 2*W(c.im0) \/ s[2] > 2*H(c.im0)
(* past the middle of the last pixel; or at the limits, where rounding decides *)
Rim(c) == \E k \in 1..4 : LET s == Source(c,TEnds(c)[k]) IN
   \/ s[1] > 2*(W(c.im0)-1) \/ s[2] > 2*(H(c.im0)-1)
   \/ (c.map # "same" \/ c.times # 1) /\ (s[1] = 0 \/ s[2] = 0)
(* four times image 0 at half pixels *)
At4(im,s) == LET x0 == s[1] \div 2 y0 == s[2] \div 2 x1 == (s[1]+1) \div 2 y1 == (s[2]+1) \div 2 IN
   im[y0+1][x0+1] + im[y0+1][x1+1] + im[y1+1][x0+1] + im[y1+1][x1+1]
Cells(c) == [k \in 1..(c.size[1]*c.size[2]) |-> <<(k-1) % c.size[1], (k-1) \div c.size[1]>>]
Template(c) == LET m == TMin(c) cs == Cells(c) IN [k \in DOMAIN cs |-> At4(c.im0,Source(c,<<m[1]+cs[k][1],m[2]+cs[k][2]>>))]
Patch(c,u) == LET cs == Cells(c) IN [k \in DOMAIN cs |-> 4*c.im1[u[2]+cs[k][2]+1][u[1]+cs[k][1]+1]]
(* the positions of the template that are searched *)
Lo(c) == LET m == TMin(c) IN [i \in {1,2} |-> IF m[i] < c.radius THEN 0 ELSE m[i]-c.radius]
Hi(c) == LET m == TMin(c) e == <<W(c.im1)-c.size[1], H(c.im1)-c.size[2]>> IN [i \in {1,2} |-> IF m[i]+c.radius > e[i] THEN e[i] ELSE m[i]+c.radius]
RECURSIVE Root(_,_,_)
Root(x,lo,hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo+hi) \div 2 IN IF m*m <= x THEN Root(x,m,hi) ELSE Root(x,lo,m)
(* ten times the square root *)
Root10(x) == IF x <= 20000000 THEN Root(x*100,0,46341) ELSE LET s == Root(x,0,46341) IN 10*s + ((x - s*s)*10) \div (2*s)
Dot(a,b) == Sum([k \in DOMAIN a |-> a[k]*b[k]])
Normed(c) == c.method \in {"default","ccorr_normed","sqdiff_normed","ccoeff_normed"}
Least(c) == c.method \in {"sqdiff","sqdiff_normed"}
Unknown == -1000000
(* how well they agree: 6000ths, if normalized *)
Ratio(num,sq) == IF sq < 1000 THEN Unknown
                 ELSE IF sq <= 200000 THEN LET r == Root(sq*10000,0,46341) IN ((num*60000) \div r)*10 + (((num*60000) % r)*10) \div r
                 ELSE (num*60000) \div Root10(sq)
Score(c,t,p) == LET n == Len(t) tp == Dot(t,p) st == Sum(t) sp == Sum(p)
                    sq == Dot(t,t) - 2*tp + Dot(p,p) co == n*tp - st*sp IN
  CASE c.method = "sqdiff" -> sq
    [] c.method = "ccorr" -> tp
    [] c.method = "ccoeff" -> co
    [] c.method \in {"default","ccorr_normed"} -> Ratio(tp,Dot(t,t)*Dot(p,p))
    [] c.method = "sqdiff_normed" -> LET r == Ratio(sq,Dot(t,t)*Dot(p,p)) IN IF r > 6000 THEN 6000 ELSE r   \* (OpenCV ends there)
    [] c.method = "ccoeff_normed" -> Ratio(co,(n*Dot(t,t)-st*st)*(n*Dot(p,p)-sp*sp))
Positions(c) == {<<x,y>> : x \in Lo(c)[1]..Hi(c)[1], y \in Lo(c)[2]..Hi(c)[2]}
Scores(c) == LET t == TLCEval(Template(c)) IN TLCEval([u \in Positions(c) |-> Score(c,t,Patch(c,u))])
Gap(c) == CASE Normed(c) -> 12 [] c.method = "ccoeff" -> 40 [] OTHER -> 5
Better(c,a,b) == IF Least(c) THEN a <= b - Gap(c) ELSE a >= b + Gap(c)
(* the best position, where there is one for certain *)
Best(c,z) == {u \in DOMAIN z : \A v \in DOMAIN z : v # u => Better(c,z[u],z[v])}
Clear(c,z) == (\A u \in DOMAIN z : z[u] # Unknown) /\ Best(c,z) # {}
Wrong(c) == c.fault # "none"
Kind(c) == IF c.fault \in {"both","neither","color0","color1","size0","size3","sizef"} THEN "refused"
           ELSE IF Out1(c) THEN "refused" ELSE IF Out0(c) THEN "refused"
           ELSE IF Rim(c) THEN "unknown" ELSE "match"
Edge(c,u) == \E i \in {1,2} : u[i] = Lo(c)[i] \/ u[i] = Hi(c)[i]
(* the paraboloid through the 9 values around the best one (row by row), times 12 *)
X == <<-1,0,1,-1,0,1,-1,0,1>>
Y == <<-1,-1,-1,0,0,0,1,1,1>>
Fit(z) == LET S == Sum(z) s(f) == Sum([k \in 1..9 |-> f[k]*z[k]]) IN
   [x |-> 2*s(X), y |-> 2*s(Y), xy |-> 3*s([k \in 1..9 |-> X[k]*Y[k]]), xx |-> 6*s([k \in 1..9 |-> X[k]*X[k]]) - 4*S, yy |-> 6*s([k \in 1..9 |-> Y[k]*Y[k]]) - 4*S]
Definite(c,f) == LET g == IF Least(c) THEN 1 ELSE -1 a == (g*f.xx) \div 50 b == (g*f.yy) \div 50 m == f.xy \div 50 IN
   a > 20 /\ b > 20 /\ 4*a*b - m*m > (a*b) \div 5
Abs(x) == IF x < 0 THEN -x ELSE x
(* the gradient at <<x,y>> (thousandths) is zero *)
AtRest(f,x,y,tol) == /\ Abs(1000*f.x + 2*f.xx*x + f.xy*y) <= tol /\ Abs(1000*f.y + 2*f.yy*y + f.xy*x) <= tol
=============================================================================
