------------------------------ MODULE MCArgs ------------------------------
(* Well-formed problems, and everything within a few edits of them. *)
EXTENDS Args, TLC, Json
CONSTANTS Edits, Stride, Seed
VARIABLES a, n, h
L4 == "LENSMODEL_OPENCV4"
SP == "LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=90"
B1 == [lens |-> L4, nin |-> 8, ncam |-> 2, nimg |-> 2, next |-> 1, nf |-> 2, np |-> 3, npf |-> 1,
       ob |-> << <<0,0,-1>>, <<0,1,0>>, <<1,0,-1>> >>, dob |-> 0,
       op |-> << <<0,0,-1>>, <<1,1,0>>, <<2,0,-1>>, <<2,1,0>> >>, dop |-> 0, tri |-> <<>>, dtri |-> 0,
       warp |-> "ok", spacing |-> "ok", fl |-> <<-1,-1,-1,-1,-1>>, H |-> 3, W |-> 2, fa |-> "", fk |-> ""]
Bases == { B1,
  [B1 EXCEPT !.tri = << <<0,0,-1>>, <<0,1,0>>, <<1,1,0>>, <<1,0,-1>>, <<1,2,1>> >>, !.ncam = 3, !.nimg = 3, !.next = 2, !.fl = <<0,0,1,-1,-1>>],
  [B1 EXCEPT !.ob = <<>>, !.nf = 0, !.warp = "none", !.spacing = "none"],
  [B1 EXCEPT !.op = <<>>, !.np = 0, !.npf = 0, !.lens = "LENSMODEL_PINHOLE", !.nin = 4],
  [B1 EXCEPT !.npf = 3, !.fl = <<0,0,0,1,0>>, !.lens = SP, !.nin = 28],
  [B1 EXCEPT !.ob = << <<0,0,-1>>, <<0,0,0>>, <<0,0,1>>, <<1,0,0>>, <<2,0,-1>>, <<2,0,1>> >>, !.ncam = 1, !.nimg = 1, !.next = 2, !.nf = 3, !.op = <<>>, !.np = 0, !.npf = 0] }
Init == a \in Bases /\ n = 0 /\ h = (Seed*131 + a.ncam*7 + Len(a.ob)*3 + Len(a.tri) + Len(a.op)*11) % 9973
Hh(x) == h' = (h*131 + x*7 + 3) % 9973
Drop(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Ins(s,i,e) == SubSeq(s,1,i) \o <<e>> \o SubSeq(s,i+1,Len(s))
Arrays == <<"intrinsics","imagersizes","extr","frames","points","ob","ib","op","ip","ot","it","warp">>
Kinds == <<"dtype","stride","few","more","last","swap","trunc","none","absent">>
Big == 1000000
Lists == {"ob","op","tri"}
ListNo(k) == CASE k = "ob" -> 1 [] k = "op" -> 2 [] OTHER -> 3
SmallLens == <<L4,"LENSMODEL_PINHOLE","LENSMODEL_NOSUCH",SP,"LENSMODEL_SPLINED_STEREOGRAPHIC","LENSMODEL_OPENCV5">>
Next == /\ n < Edits /\ n' = n+1
   /\ \/ \E d \in {-1,1} : \E k \in {"nin","ncam","nimg","next","nf","np"} : a[k]+d >= 0 /\ a' = [a EXCEPT ![k] = @+d] /\ Hh(d+5)
      \/ \E d \in {-1,1,-9} : \E k \in {"dob","dop","dtri"} : a' = [a EXCEPT ![k] = d] /\ Hh(d+30)
      \/ \E v \in -2..4 : a.npf # v /\ a' = [a EXCEPT !.npf = v] /\ Hh(40+v)
      \/ \E v \in {"ok","none","short"} : a.warp # v /\ a' = [a EXCEPT !.warp = v] /\ Hh(51)
      \/ \E v \in {"ok","zero","neg","none"} : a.spacing # v /\ a' = [a EXCEPT !.spacing = v] /\ Hh(52)
      \/ \E v \in 0..2 : \E k \in {"H","W"} : a[k] # v /\ a' = [a EXCEPT ![k] = v] /\ Hh(53+v)
      \/ \E i \in DOMAIN SmallLens : a' = [a EXCEPT !.lens = SmallLens[i]] /\ Hh(60+i)
      \/ \E i \in DOMAIN SmallLens : SmallLens[i] \in Lenses /\ a' = [a EXCEPT !.lens = SmallLens[i], !.nin = LensParams[SmallLens[i]]] /\ Hh(67+i)
      \/ \E k \in 1..5 : \E v \in {-1,0,1} : a.fl[k] # v /\ a' = [a EXCEPT !.fl[k] = v] /\ Hh(70+3*k+v)
      \/ a' = [a EXCEPT !.fl = <<0,0,0,0,0>>] /\ Hh(90)
      \/ a' = [a EXCEPT !.fl = <<0,0,0,1,0>>] /\ Hh(91)
      \/ \E i \in DOMAIN Arrays : \E j \in DOMAIN Kinds : a.fk = "" /\ a' = [a EXCEPT !.fa = Arrays[i], !.fk = Kinds[j]] /\ Hh(100+20*i+j)
      \/ \E k \in Lists : \E i \in DOMAIN a[k] : \E c \in 1..3 : \E v \in (-2..3) \cup {Big} : a[k][i][c] # v /\ a' = [a EXCEPT ![k][i][c] = v] /\ Hh(400+i*30+c*9+ListNo(k)*5+(v%10))
      \/ \E k \in Lists : \E i \in DOMAIN a[k] : a' = [a EXCEPT ![k] = Drop(@,i)] /\ Hh(700+i+10*ListNo(k))
      \/ \E k \in Lists : \E i \in DOMAIN a[k] : a' = [a EXCEPT ![k] = Ins(@,i,@[i])] /\ Hh(740+i+10*ListNo(k))
      \/ \E k \in Lists : \E i \in 1..(Len(a[k])-1) : a' = [a EXCEPT ![k] = [@ EXCEPT ![i] = a[k][i+1], ![i+1] = a[k][i]]] /\ Hh(780+i+10*ListNo(k))
Laws == Laws0(a) /\ (n = 0 => Verdict(a) = "good")
Export == (n < 2 \/ (h + n) % Stride = 0) => PrintT("CASE " \o ToJson([a |-> a, opt |-> Opt(a)]))
=============================================================================
