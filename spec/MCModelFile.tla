---------------------------- MODULE MCModelFile -----------------------------
EXTENDS ModelFile, Json
CONSTANTS Edits, Stride, Seed
VARIABLES es, n, h
vars == <<es,n,h>>
Base(l,p,s) == << E("lensmodel",l), E("intrinsics",10*l+1), E("rt_cam_ref",p), E("imagersize",s) >>
Bases == UNION { LET b == Base(l,(l % 4),1 + (l % 2)) IN
   { b, Append(b,E("extrinsics",l % 4)), <<b[1],b[2],E("valid_intrinsics_region",l % 3),b[3],b[4]>>,
     b \o << E("icam_intrinsics",l % 2), E("icam_extrinsics",(l % 2)-1), E("optimization_inputs",1 + (l % 2)) >>,
     b \o << E("icam_intrinsics",0), E("optimization_inputs",1) >>,
     <<b[1],b[2],E("extrinsics",l % 4),b[4]>> } : l \in 1..5 }
Init == es \in Bases /\ n = 0 /\ h = (Seed*17 + Len(es) + 5*es[1].v) % 9973
Keys == {"lensmodel","intrinsics","rt_cam_ref","extrinsics","imagersize"}
FirstLens(es0) == LET S == {i \in DOMAIN es0 : es0[i].k = "lensmodel" /\ es0[i].v \in 1..5} IN IF S = {} THEN 1 ELSE es0[CHOOSE i \in S : \A j \in S : i <= j].v
Vals(k,es0) == CASE k \in {"lensmodel"} -> 1..7
             [] k = "intrinsics" -> {10*FirstLens(es0) + i : i \in 1..5} \cup {21}
             [] k \in {"rt_cam_ref","extrinsics"} -> {0,1,5,6,7,8}
             [] k = "imagersize" -> 1..8
             [] k = "valid_intrinsics_region" -> {0,1,2,4}
             [] k = "optimization_inputs" -> 1..3
             [] k \in {"icam_intrinsics","icam_extrinsics","icam_intrinsics_optimization_inputs"} -> {-1,0,1,9}
             [] k \in {"distortion_model","lens_model"} -> {1,2,6,7}
             [] OTHER -> 1..8
Renames == [x \in {"lensmodel","rt_cam_ref","extrinsics","icam_intrinsics","intrinsics","imagersize"} |->
   CASE x = "lensmodel" -> {"distortion_model","lens_model"} [] x = "rt_cam_ref" -> {"extrinsics"} [] x = "extrinsics" -> {"rt_cam_ref","other"}
     [] x = "icam_intrinsics" -> {"icam_intrinsics_optimization_inputs"} [] x = "intrinsics" -> {"Intrinsics"} [] x = "imagersize" -> {"other"}]
Ins(s,i,e) == SubSeq(s,1,i) \o <<e>> \o SubSeq(s,i+1,Len(s))
Drop(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
H(a,b) == (a*131 + b*7 + 3) % 9973
Next == /\ n < Edits /\ n' = n+1 /\ Len(es) > 0
        /\ \/ \E i \in DOMAIN es : es' = Drop(es,i) /\ h' = H(h,i)
           \/ \E i \in 1..(Len(es)-1) : es' = [es EXCEPT ![i] = es[i+1], ![i+1] = es[i]] /\ h' = H(h,20+i)
           \/ \E i \in DOMAIN es : \E v \in Vals(es[i].k,es) : v # es[i].v /\ es' = [es EXCEPT ![i].v = v] /\ h' = H(h,40+i+7*v)
           \/ \E i \in DOMAIN es, j \in {0,Len(es)} : es' = Ins(es,j,es[i]) /\ h' = H(h,60+i)
           \/ \E i \in DOMAIN es : es[i].k \in DOMAIN Renames /\ \E k \in Renames[es[i].k] : es' = [es EXCEPT ![i].k = k] /\ h' = H(h,80+i)
           \/ \E k \in {"extrinsics","icam_intrinsics","optimization_inputs","valid_intrinsics_region","lens_model","other"}, j \in {0,Len(es)} :
                 \E v \in Vals(k,es) : es' = Ins(es,j,E(k,v)) /\ h' = H(h,99+v)
Laws == LET p == Python(es)  c == C(es) IN
   (* the C reader is the stricter one; where both accept a file they agree *)
   /\ (c.ok /\ p.ok => c.lens = p.lens /\ c.pose = p.pose /\ c.size = p.size)
   /\ (c.ok => Needs(es) = NParams[c.lens])
   /\ (n = 0 => p.ok /\ c.ok)
Layouts == <<"plain","oneline","comments","parens","doublequotes","nocomma","crlf","page","page2","exponents","noclose","garbage","missingcomma","noopen","empty","noclosebracket">>
Export == ((h + n) % (IF n < 2 THEN 1 ELSE Stride) = 0) =>
     \A y \in {h % 24, (h*7 + 3) % 24} : LET lay == Layouts[1 + (IF y >= 16 THEN y % 10 ELSE y)] IN
          PrintT("CASE " \o ToJson([es |-> es, lay |-> lay, good |-> lay \in GoodLayouts]))
=============================================================================
