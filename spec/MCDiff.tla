------------------------------- MODULE MCDiff -------------------------------
EXTENDS Diff, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Kind == <<"diff","diff","diff","fit","fit","pair","pair","res","res","unc">>[1 + Pick(1,10)]
Lenses == <<"PINHOLE","OPENCV4","OPENCV8","SPLINED","CAHVOR","LONLAT","LATLON","STEREOGRAPHIC","CAHVORE","CAHVORE0">>
PoseOf(k) == Gens[1 + Pick(k,NGens)]
(* a pose not far from that of camera 0 *)
Near(k) == [q |-> <<5 + Pick(k,4), Pick(k+1,3) - 1, Pick(k+2,3) - 1, Pick(k+3,3) - 1>>, t |-> <<Pick(k+4,7) - 3, Pick(k+5,7) - 3, Pick(k+6,7) - 3>>, d |-> 1]
PoseNo(i) == IF i = 1 THEN (IF Pick(10,3) = 0 THEN Gens[1 + Pick(11,5)] ELSE Near(20)) ELSE Near(20 + 10*i)
Sizes == << <<200,150>>, <<120,160>>, <<240,100>> >>
Dist(k) == CASE Pick(k,5) \in {0,1} -> <<>> [] Pick(k,5) = 2 -> <<5>> [] Pick(k,5) = 3 -> <<3,8>> [] OTHER -> <<12,40,100>>
(* a turn by the shift of the center of the equirectangular models *)
Turns == << Identity, [q |-> <<1,0,0,0>>, t |-> <<0,0,0>>, d |-> 1] >>
NM == CASE Pick(2,12) = 0 -> 1 [] Pick(2,12) \in {1,2,3} -> 3 [] Pick(2,12) = 4 -> 4 [] OTHER -> 2
DiffCase == LET nm == NM
                given == IF Pick(3,5) = 0 THEN 1 ELSE 0
                intr == IF Pick(4,4) = 0 THEN 1 ELSE 0
                rad == <<"zero","zero","default","part","all">>[1 + Pick(5,5)]
                fit == given = 0 /\ intr = 0 /\ rad # "zero"
                dist == Dist(6)
                (* fitted: the same lens everywhere, or turned equirectangular ones *)
                lens(i) == IF fit THEN (IF Pick(8,2) = 0 THEN <<"LONLAT","LATLON">>[1 + Pick(7,2)] ELSE Lenses[1 + Pick(7,10)]) ELSE Lenses[1 + Pick(6+i,10)]
                shift(i) == IF fit /\ i > 1 /\ lens(i) \in {"LONLAT","LATLON"} THEN Pick(12+i,3) - 1 ELSE 0 IN
   [kind |-> "diff", models |-> [i \in 1..nm |-> lens(i)], same |-> IF fit THEN 1 ELSE 0, poses |-> [i \in 1..nm |-> PoseNo(i)],
    given |-> given, givenpose |-> Near(70), intronly |-> intr, radius |-> rad, dist |-> dist, list |-> IF dist = <<>> THEN 0 ELSE IF Len(dist) > 1 THEN 1 ELSE Pick(9,2),
    unc |-> <<"off","off","missing">>[1 + Pick(15,3)], sizes |-> IF Pick(16,15) = 0 THEN "differ" ELSE "same", size |-> Sizes[1 + Pick(17,3)],
    gw |-> <<7,12,20,9>>[1 + Pick(18,4)], gh |-> IF Pick(19,2) = 0 THEN 0 ELSE 5 + Pick(19,7),
    (* the turn is atan(1/20)*2 about y or x: exact quaternion <<20,0,s,0>> *)
    shift |-> [i \in 1..nm |-> shift(i)],
    turn |-> [i \in 1..nm |-> IF shift(i) = 0 THEN Identity ELSE [q |-> IF lens(i) = "LONLAT" THEN <<20,0,-shift(i),0>> ELSE <<20,shift(i),0,0>>, t |-> <<0,0,0>>, d |-> 1]]]
FitCase == LET gw == 6 + Pick(3,5) gh == 5 + Pick(4,4) w == <<"none","none","given","given">>[1 + Pick(6,4)]
               nbad == Pick(7,3) nnan == Pick(8,3)
               bad(j) == \E b \in 1..6 : nbad > 0 /\ Pick(100+b,gw*gh) = j
               nan(j) == \E b \in 1..3 : nnan > 0 /\ Pick(110+b,gw*gh) = j IN
   [kind |-> "fit", gw |-> gw, gh |-> gh, grid |-> [j \in 1..(gw*gh) |-> IF nan(j-1) THEN "nan" ELSE IF bad(j-1) THEN "bad" ELSE "good"],
    weights |-> w, center |-> <<10*Pick(9,gw),10*Pick(10,gh)>>, radius |-> <<1000,1000,25,32,47,12,5>>[1 + Pick(11,7)], inf |-> Pick(12,2),
    pose |-> Near(30), lead |-> <<0,0,1,2>>[1 + Pick(13,4)], ndist |-> 1 + Pick(14,3), nanat |-> <<"p0","v1","w">>[1 + Pick(15,3)], defaults |-> Pick(16,2)]
PairCase == LET dist == IF Pick(3,2) = 0 THEN <<>> ELSE <<3 + Pick(4,20)>> IN
   [kind |-> "pair", npairs |-> IF Pick(5,25) = 0 THEN <<1,3>>[1 + Pick(6,2)] ELSE 2, models |-> [p \in 1..2 |-> [i \in 1..2 |-> Lenses[1 + Pick(6+2*p+i,10)]]],
    poses |-> [p \in 1..2 |-> [i \in 1..2 |-> PoseNo(2*p + i - 2)]], dist |-> dist, sizes |-> IF Pick(16,12) = 0 THEN "differ" ELSE "same", which |-> Pick(17,2),
    size |-> Sizes[1 + Pick(18,3)], gw |-> <<7,12,20,9>>[1 + Pick(19,4)], gh |-> IF Pick(20,2) = 0 THEN 0 ELSE 5 + Pick(19,7), list |-> 0]
Triples == << <<0,1,1>>, <<3,4,5>>, <<4,3,5>>, <<5,12,13>>, <<8,15,17>>, <<7,24,25>>, <<20,21,29>>, <<12,5,13>> >>
ResCase == LET l == <<"PINHOLE","STEREOGRAPHIC","LONLAT","LATLON","any">>[1 + Pick(3,5)] IN
   [kind |-> "res", lens |-> l, f |-> 200 + 50*Pick(4,7), g |-> 200 + 50*Pick(5,7), tri |-> Triples[1 + Pick(6,8)], az |-> Pick(7,12),
    any |-> Lenses[1 + Pick(8,8)], mode |-> <<"default","min","max","mean","eccentricity","bogus">>[1 + Pick(9,6)], shape |-> Pick(10,4)]
UncCase == [kind |-> "unc", seeds |-> IF Pick(2,3) = 0 THEN <<Pick(3,2),2,3>> ELSE <<Pick(3,3),3 + Pick(4,2)>>, dist |-> Dist(5), list |-> IF Dist(5) = <<>> THEN 0 ELSE 1, radius |-> <<"default","default","part">>[1 + Pick(6,3)],
   size |-> Sizes[1 + Pick(7,3)], gw |-> <<9,12,15>>[1 + Pick(8,3)], gh |-> IF Pick(9,2) = 0 THEN 0 ELSE 7 + Pick(9,5)]
Case == CASE Kind = "unc" -> UncCase [] Kind = "diff" -> DiffCase [] Kind = "fit" -> FitCase [] Kind = "pair" -> PairCase [] OTHER -> ResCase
Good(c) == CASE c.kind = "diff" -> c.gh > 0 \/ ~Tie(c.size[2]*c.gw,c.size[1])
             (* at a single distance a rotation and a translation can hardly be told apart *)
             [] c.kind = "unc" -> Len(c.dist) # 1 /\ (c.gh > 0 \/ ~Tie(c.size[2]*c.gw,c.size[1]))
             [] c.kind = "pair" -> c.gh > 0 \/ ~Tie(c.size[2]*c.gw,c.size[1])
             [] c.kind = "fit" -> FitRefused(c) \/ FitKnown(c)
             [] OTHER -> TRUE
Refused(c) == CASE c.kind = "diff" -> DiffRefused(c) [] c.kind = "fit" -> FitRefused(c) [] c.kind = "pair" -> PairRefused(c) [] c.kind = "unc" -> FALSE [] OTHER -> c.mode = "bogus"
(* what the driver needs to know *)
Extra(c) == CASE c.kind = "diff" -> [used |-> IF DiffRefused(c) THEN <<>> ELSE [i \in 1..(Len(c.models)-1) |-> Used(c,i+1)], shape |-> DiffShape(c), source |-> Source(c)]
             [] c.kind = "pair" -> [used |-> IF PairRefused(c) THEN <<>> ELSE [p \in 1..2 |-> [i \in 1..2 |-> PairUsed(c,p,i)]], shape |-> DiffShape(c)]
             [] c.kind = "fit" -> [used |-> FitPose(c)]
             [] c.kind = "unc" -> [shape |-> DiffShape(c)]
             [] OTHER -> [used |-> IF c.lens = "any" THEN <<>> ELSE <<SensMax(c),SensMin(c)>>]
(* the transformation takes the position of the reference in one camera to that in the other *)
Maps(T,a,b) == TransformR(T,a.t,a.d) = ReduceV(b.t,b.d) /\ CanonQ(MulQ(T.q,a.q)) = CanonQ(b.q)
Laws == LET c == Case IN
   CASE c.kind = "diff" /\ ~DiffRefused(c) ->
          \A i \in 2..Len(c.models) :
           (* the transformations relate back, and directions do not see translations *)
           /\ c.dist = <<>> => Used(c,i).t = <<0,0,0>>
           /\ Source(c) = "extrinsics" => Maps(Relative(c,i),c.poses[1],c.poses[i])
     [] c.kind = "pair" /\ ~PairRefused(c) -> \A p \in 1..2 : CanonQ(MulQ(PairUsed(c,p,1).q,PairUsed(c,p,2).q)) = <<1,0,0,0>> /\ (c.dist # <<>> => Maps(PairUsed(c,p,1),c.poses[p][1],c.poses[p][2]) /\ Maps(PairUsed(c,p,2),c.poses[p][2],c.poses[p][1]))
     [] c.kind = "res" /\ c.lens # "any" -> ~Less(SensMax(c),SensMin(c)) /\ (c.lens = "STEREOGRAPHIC" => SensMax(c) = SensMin(c))
     [] c.kind = "fit" -> \A p \in Focus(c) : Matters(c,p) => c.grid[p[2]*c.gw + p[1] + 1] # "nan"
     [] OTHER -> TRUE
Export == Good(Case) => PrintT("CASE " \o ToJson([c |-> Case, x |-> Extra(Case), refused |-> IF Refused(Case) THEN 1 ELSE 0]))
Init == n \in 1..N
Next == FALSE /\ n' = n
=============================================================================
