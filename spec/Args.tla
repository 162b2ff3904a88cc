------------------------------- MODULE Args -------------------------------
(* Which descriptions of an optimization problem are well-formed.
   a = [ lens, nin (columns of intrinsics), ncam, nimg, next, nf, np, npf,
         ob, op, tri: rows <<what,icam_intrinsics,icam_extrinsics>> of the index arrays,
         dob, dop, dtri: how many more rows the observation arrays have than those,
         warp, spacing, fl: the 5 do_optimize_... flags in {-1 (not given),0,1}, H, W,
         fa, fk: the array with a fault in its representation, and that fault ]        *)
EXTENDS Integers, Sequences, FiniteSets
LensParams == [x \in {"LENSMODEL_PINHOLE","LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=90"} |->
                 CASE x = "LENSMODEL_PINHOLE" -> 4 [] x = "LENSMODEL_OPENCV4" -> 8 [] x = "LENSMODEL_OPENCV5" -> 9 [] OTHER -> 28]
Lenses == DOMAIN LensParams
Pos(x) == IF x > 0 THEN x ELSE 0
NOb(a) == Pos(Len(a.ob)+a.dob)
NOp(a) == Pos(Len(a.op)+a.dop)
NTri(a) == Pos(Len(a.tri)+a.dtri)
(* giving None for an array, or not giving it, is giving one without rows *)
Reduced(a) == IF a.fk \notin {"none","absent"} THEN a ELSE
  LET b == [a EXCEPT !.fk = "", !.fa = ""] IN
  CASE a.fa = "imagersizes" -> [b EXCEPT !.nimg = 0]
    [] a.fa = "extr" -> [b EXCEPT !.next = 0]
    [] a.fa = "frames" -> [b EXCEPT !.nf = 0]
    [] a.fa = "points" -> [b EXCEPT !.np = 0]
    [] a.fa = "ob" -> [b EXCEPT !.dob = -Len(a.ob)]
    [] a.fa = "ib" -> [b EXCEPT !.ob = <<>>, !.dob = NOb(a)]
    [] a.fa = "op" -> [b EXCEPT !.dop = -Len(a.op)]
    [] a.fa = "ip" -> [b EXCEPT !.op = <<>>, !.dop = NOp(a)]
    [] a.fa = "ot" -> [b EXCEPT !.dtri = -Len(a.tri)]
    [] a.fa = "it" -> [b EXCEPT !.tri = <<>>, !.dtri = NTri(a)]
    [] a.fa = "warp" -> [b EXCEPT !.warp = "none"]
    [] OTHER -> a
NRows(a,arr) == CASE arr = "intrinsics" -> a.ncam [] arr = "imagersizes" -> a.nimg [] arr = "extr" -> a.next [] arr = "frames" -> a.nf
   [] arr = "points" -> a.np [] arr = "ob" -> NOb(a) [] arr = "ib" -> Len(a.ob) [] arr = "op" -> NOp(a) [] arr = "ip" -> Len(a.op)
   [] arr = "ot" -> NTri(a) [] arr = "it" -> Len(a.tri) [] arr = "warp" -> IF a.warp = "none" THEN 0 ELSE 2
Required == {"intrinsics","imagersizes"}

Cameras(a,rows) == \A i \in DOMAIN rows : rows[i][2] \in 0..(a.ncam-1) /\ rows[i][3] \in -1..(a.next-1)
(* every frame seen, in order, and the cameras of a frame in order *)
BoardsOK(a) ==
  /\ Cameras(a,a.ob)
  /\ \A i \in DOMAIN a.ob : IF i = 1 THEN a.ob[1][1] = 0
        ELSE \/ a.ob[i][1] = a.ob[i-1][1]+1
             \/ a.ob[i][1] = a.ob[i-1][1] /\ a.ob[i][2] >= a.ob[i-1][2] /\ a.ob[i][3] >= a.ob[i-1][3]
  /\ (a.ob # <<>> => a.ob[Len(a.ob)][1] = a.nf-1)
MaxUpTo(rows,i) == IF i = 0 THEN -1 ELSE CHOOSE m \in {rows[j][1] : j \in 1..i} : \A j \in 1..i : rows[j][1] <= m
PointsOK(a) ==
  /\ Cameras(a,a.op)
  /\ \A i \in DOMAIN a.op : a.op[i][1] >= 0 /\ a.op[i][1] <= MaxUpTo(a.op,i-1)+1
  /\ MaxUpTo(a.op,Len(a.op)) = a.np-1
  /\ a.npf \in 0..a.np
TriOK(a) ==
  /\ Cameras(a,a.tri)
  /\ \A i \in DOMAIN a.tri : IF i = 1 THEN a.tri[1][1] = 0 ELSE a.tri[i][1] \in {a.tri[i-1][1],a.tri[i-1][1]+1}
  /\ \A i \in DOMAIN a.tri : \E j \in DOMAIN a.tri : i # j /\ a.tri[i][1] = a.tri[j][1]
  /\ \A i,j \in DOMAIN a.tri : (i # j /\ a.tri[i][1] = a.tri[j][1]) => ~(a.tri[i][3] = -1 /\ a.tri[j][3] = -1)
Eff(a,k) == IF a.fl[k] # -1 THEN a.fl[k] = 1 ELSE CASE k \in {1,2} -> a.ncam > 0 [] k = 3 -> a.next > 0 [] k = 4 -> a.nf > 0 [] k = 5 -> Len(a.ob) > 0
Valid0(a) ==
  /\ a.fk = ""
  /\ a.lens \in Lenses /\ a.nin = LensParams[a.lens] /\ a.nimg = a.ncam
  /\ NOb(a) = Len(a.ob) /\ NOp(a) = Len(a.op) /\ NTri(a) = Len(a.tri)
  /\ BoardsOK(a) /\ PointsOK(a) /\ TriOK(a)
  /\ a.warp # "short"
  /\ (a.ob # <<>> => a.spacing = "ok" /\ (a.fl[5] # 0 => a.warp = "ok"))
  /\ (a.tri # <<>> => ~Eff(a,1) /\ ~Eff(a,2) /\ Eff(a,3))
NoVars(a) == ~Eff(a,1) /\ ~Eff(a,2) /\ ~Eff(a,3) /\ ~Eff(a,4) /\ (~Eff(a,5) \/ a.ob = <<>>)
(* nothing is said about these *)
Odd(a) == \/ a.H = 0 \/ a.W = 0
          \/ a.nf > 0 /\ a.ob = <<>>
          \/ a.fk \notin {"","none","absent"} /\ NRows(a,a.fa) = 0
          \/ a.fk \in {"last","trunc"} /\ ((a.fa = "warp" /\ a.warp = "short") \/ (a.fa = "intrinsics" /\ (a.lens \in Lenses => a.nin # LensParams[a.lens])))
          \/ \E i,j \in DOMAIN a.tri : i # j /\ a.tri[i][1] = a.tri[j][1] /\ a.tri[i][3] = a.tri[j][3] /\ a.tri[i][3] # -1
          \/ a.lens = "LENSMODEL_PINHOLE" /\ ~Eff(a,1) /\ ~Eff(a,3) /\ ~Eff(a,4) /\ ~Eff(a,5)
Verdict(a0) ==
  LET a == Reduced(a0) IN
  IF a0.fa \in Required /\ a0.fk \in {"absent"} THEN "bad"
  ELSE IF Odd(a) THEN "any" ELSE IF Valid0(a) THEN (IF NoVars(a) THEN "novars" ELSE "good") ELSE "bad"
(* optimize() is only tried on what is to be rejected, and on a board problem with known cameras *)
Solvable(a) == Verdict(a) = "good" /\ a.fl = <<0,0,0,1,0>> /\ a.npf = a.np /\ a.ob # <<>> /\ a.tri = <<>> /\ a.H > 1 /\ a.W > 1
Opt(a) == Verdict(a) = "bad" \/ Solvable(a)

(* the one pose that camera i has in a stationary rig, or -2 if the problem is not such a rig *)
Icam(a,i) ==
  LET S == {<<a.ob[k][2],a.ob[k][3]>> : k \in DOMAIN a.ob} \cup {<<a.op[k][2],a.op[k][3]>> : k \in DOMAIN a.op}
      mine == {s \in S : s[1] = i} IN
  IF a.ncam \in {a.next,a.next+1} /\ (\A s,t \in S : (s[1] = t[1]) <=> (s[2] = t[2])) /\ mine # {} THEN (CHOOSE s \in mine : TRUE)[2] ELSE -2
(* what being well-formed is for: everything that is indexed exists, and every frame and point is observed *)
Laws0(a) == Verdict(a) = "good" => LET b == Reduced(a) IN
  /\ \A i \in DOMAIN b.ob : b.ob[i][1] \in 0..(b.nf-1) /\ b.ob[i][2] < b.ncam /\ b.ob[i][3] < b.next
  /\ \A i \in DOMAIN b.op : b.op[i][1] \in 0..(b.np-1)
  /\ (b.ob # <<>> => {b.ob[i][1] : i \in DOMAIN b.ob} = 0..(b.nf-1))
  /\ {b.op[i][1] : i \in DOMAIN b.op} = 0..(b.np-1)
=============================================================================
