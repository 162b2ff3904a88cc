------------------------------ MODULE Corners ------------------------------
(* Files of chessboard corners, and the board observations they stand for.
   A file is a sequence of blocks, one per image, of rows "name x y [level or weight]".
   Tokens are numbers in units of 1/4; negative codes stand for the odd ones. *)
EXTENDS Text
NEGV == -1   \* "-1.5"
DASH == -2   \* "-"
WORD == -3   \* "abc"
Numeric(t) == t >= 0 \/ t = NEGV
Min2(a,b) == IF a < b THEN a ELSE b
(* c.imgs[i]: d (directory), b (base name), k (kind of block), ed (edits <<row,field,token>>), cut (fields per row)
   The rows of image i, each a sequence of tokens *)
NRows(c,im) == CASE im.k = "full" -> c.W*c.H [] im.k = "none" -> 1 [] im.k = "one" -> 1 [] im.k = "short" -> c.W*c.H-1 [] im.k = "long" -> c.W*c.H+1
DefTok(c,i,r,f) == CASE f = 1 -> 4*(16*i+r)+1 [] f = 2 -> 4*(100+16*i+r)+2 [] OTHER -> 4*((i+r)%3) + (IF c.kind = "weight" THEN 4 ELSE 0)
Edited(im,r,f) == {e \in Range(im.ed) : e[1] = r /\ e[2] = f}
NFields(c,im,r) == IF Edited(im,r,0) # {} THEN (CHOOSE e \in Edited(im,r,0) : TRUE)[3] ELSE IF c.wcol THEN 3 ELSE 2
Tok(c,i,r,f) == LET im == c.imgs[i] IN IF f <= 3 /\ Edited(im,r,f) # {} THEN (CHOOSE e \in Edited(im,r,f) : TRUE)[3] ELSE IF im.k = "none" THEN DASH ELSE DefTok(c,i,r,f)
Row(c,i,r) == [f \in 1..NFields(c,c.imgs[i],r) |-> Tok(c,i,r,f)]
Rows(c,i) == [r \in 1..NRows(c,c.imgs[i]) |-> Row(c,i,r)]
Name(im) == im.d \o im.b
(* one row *)
Shape(row) == Len(row) \in {2,3}
Undetected(row) == row[1] = DASH \/ row[2] = DASH
UsesW(c,row) == Len(row) = 3 /\ c.kind # "none"
OffImage(row) == row[1] = NEGV \/ row[2] = NEGV
(* a row that is not clearly good or bad is left undecided *)
RowOdd(c,row) == /\ Shape(row)
                 /\ Undetected(row) \/ OffImage(row)
                 /\ (\E f \in 1..2 : row[f] = WORD) \/ (UsesW(c,row) /\ row[3] = WORD)
RowOk(c,row) == Shape(row) /\ (Undetected(row) \/ (Numeric(row[1]) /\ Numeric(row[2]) /\ (UsesW(c,row) => row[3] # WORD)))
(* weight in 1/64 *)
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] OTHER -> 64
Weight(c,row) == IF Undetected(row) \/ OffImage(row) THEN -64
                 ELSE IF ~UsesW(c,row) THEN 64
                 ELSE IF row[3] = DASH \/ row[3] = NEGV THEN -64
                 ELSE IF c.kind = "weight" THEN (IF row[3] = 0 THEN -64 ELSE 16*row[3])
                 ELSE 64 \div Pow2(row[3] \div 4)
Valid(c,row) == Weight(c,row) > 0
(* where the image is *)
Norm(d) == IF d = "./" THEN "" ELSE d
CDir(c) == CASE c.src = "cwd" -> "" [] c.src \in {"sub","detect"} -> "sub/" [] c.src = "abs" -> "/T/else/" [] OTHER -> ""
OnDisk(c) == c.src \in {"cwd","sub","abs","detect"}
IsAbs(im) == im.d = "/data/"
Path(c,im) == IF c.prefix # "" THEN c.prefix \o "/" \o (IF IsAbs(im) THEN "data/" ELSE Norm(im.d)) \o im.b
              ELSE IF c.imgdir # "" THEN c.imgdir \o "/" \o im.b
              ELSE IF OnDisk(c) /\ ~IsAbs(im) /\ im.b \notin Range(c.exists) THEN CDir(c) \o Norm(im.d) \o im.b
              ELSE Norm(im.d) \o im.b
AbsPath(p) == IF StartsWith(p,"/") THEN p ELSE "/T/" \o p
GlobSegs(g) == IF StartsWith(g[1],"/") THEN g ELSE IF g[1] = "" THEN <<"", "/">> \o Tail(g) ELSE <<"", "/" \o g[1]>> \o Tail(g)
Segs(c) == [k \in DOMAIN c.globs |-> GlobSegs(c.globs[k])]
CamOf(segs,p) == LET ks == {k \in DOMAIN segs : Matches(AbsPath(p),segs[k])} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j
NMin(c) == IF c.min < 0 THEN 2*Min2(c.W,c.H) ELSE c.min
CallOk(c) == /\ c.kind \in {"level","weight","none"}
             /\ c.src = "detect" => c.W = c.H /\ c.kind # "weight" /\ c.rc = 0 /\ c.jobs >= 0
             /\ c.src \notin {"nofile","dir"}
(* everything about a file, once *)
Derive(c) ==
  LET I == DOMAIN c.imgs
      segs == Segs(c)
      rows == [i \in I |-> Rows(c,i)]
      ok == [i \in I |-> c.imgs[i].k \in {"full","none","one"} /\ \A r \in DOMAIN rows[i] : RowOk(c,rows[i][r])]
      w == [i \in I |-> [r \in DOMAIN rows[i] |-> IF RowOk(c,rows[i][r]) THEN Weight(c,rows[i][r]) ELSE -64]]
      path == [i \in I |-> Path(c,c.imgs[i])]
      cam == [i \in I |-> CamOf(segs,path[i])]
      kept == [i \in I |-> /\ c.imgs[i].k = "full" /\ Name(c.imgs[i]) \notin Range(c.excl) /\ cam[i] > 0
                           /\ Cardinality({r \in DOMAIN w[i] : w[i][r] > 0}) > NMin(c)]
      seq == SelectSeq([i \in I |-> i], LAMBDA i : kept[i])
      of == [k \in DOMAIN c.globs |-> SelectSeq(seq, LAMBDA i : cam[i] = k)]
      files == [k \in DOMAIN c.globs |-> [j \in DOMAIN of[k] |-> path[of[k][j]]]]
      fileok == \A i \in I : ok[i]
      enough == \A k \in DOMAIN of : Len(of[k]) >= (IF Len(c.globs) > 1 THEN 2 ELSE 1)
      odd == \/ \E i \in I : c.imgs[i].d = "./" /\ (c.prefix # "" \/ OnDisk(c))     \* these paths are not normalized
             \/ \E i \in I : \E r \in DOMAIN rows[i] : RowOdd(c,rows[i][r])
             \/ \E i,j \in I : i < j /\ Name(c.imgs[i]) = Name(c.imgs[j])
             \/ \E i,j \in DOMAIN seq : i < j /\ path[seq[i]] = path[seq[j]]
      good == CallOk(c) /\ fileok /\ enough /\ ~odd /\ Mappable(files)
  IN [rows |-> rows, w |-> w, path |-> path, seq |-> seq, odd |-> odd, good |-> good,
      (* <<frame number, camera, image>> *)
      obs |-> IF good THEN UNION {{<<Number(files,k,j),k-1,of[k][j]>> : j \in DOMAIN of[k]} : k \in DOMAIN of} ELSE {}]
Ambiguous(d) == \E x,y \in d.obs : x # y /\ x[1] = y[1] /\ x[2] = y[2]
Before(x,y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x = y \/ Before(x,y) IN <<x>> \o InOrder(S \ {x})
FrameIdx(S,x) == Cardinality({f \in {y[1] : y \in S} : f < x[1]})
Expect(d) == LET o == InOrder(d.obs) IN
   [idx |-> [n \in DOMAIN o |-> <<FrameIdx(d.obs,o[n]),o[n][2]>>],
    paths |-> [n \in DOMAIN o |-> d.path[o[n][3]]],
    obs |-> [n \in DOMAIN o |-> [r \in DOMAIN d.rows[o[n][3]] |-> LET row == d.rows[o[n][3]][r]  w == d.w[o[n][3]][r]
                                                                IN IF w > 0 THEN <<row[1],row[2],w>> ELSE <<0,0,-64>>]]]
Decided(c,d) == ~d.odd /\ ~Ambiguous(d)
Laws0(c,d) == (d.good /\ Decided(c,d)) =>
   LET e == Expect(d) IN /\ Len(e.idx) = Len(d.seq)
                         /\ e.idx[1][1] = 0
                         /\ \A n \in 1..(Len(e.idx)-1) : /\ e.idx[n+1][1] - e.idx[n][1] \in {0,1}
                                                         /\ e.idx[n+1][1] = e.idx[n][1] => e.idx[n+1][2] > e.idx[n][2]
                         /\ \A n \in DOMAIN e.obs : Len(e.obs[n]) = c.W*c.H /\ Cardinality({r \in 1..(c.W*c.H) : e.obs[n][r][3] > 0}) > NMin(c)
                         /\ \A k \in DOMAIN c.globs : \E n \in DOMAIN e.idx : e.idx[n][2] = k-1
=============================================================================
