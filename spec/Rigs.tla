-------------------------------- MODULE Rigs --------------------------------
(* Generates solved problems (records of Layout): rigs of stationary or moving cameras,
   boards and points, locked variables. *)
EXTENDS Layout, Json
CONSTANTS N, Seed
VARIABLES n
P(k) == (((n*7919 + Seed*104729 + k*15485) % 32749)*((n + 31*k) % 1237) + k*97 + n) % 10007
Pick(k,m) == P(k) % m
Prob(k,m) == IF Pick(k,m) = 0 THEN 0 ELSE 1
ModelRec(m) == CASE m = 0 -> [model |-> "LENSMODEL_PINHOLE", ncore |-> 4, nd |-> 0, sp |-> <<0,0,0>>]
                 [] m \in {1,2} -> [model |-> "LENSMODEL_OPENCV4", ncore |-> 4, nd |-> 4, sp |-> <<0,0,0>>]
                 [] m = 3 -> [model |-> "LENSMODEL_CAHVOR",  ncore |-> 4, nd |-> 5, sp |-> <<0,0,0>>]
                 [] m = 4 -> [model |-> "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=120", ncore |-> 4, nd |-> 40, sp |-> <<3,5,4>>]
                 [] OTHER -> [model |-> "LENSMODEL_OPENCV8", ncore |-> 4, nd |-> 8, sp |-> <<0,0,0>>]
NCam == 1 + Pick(2,3)
(* stationary cameras (camera 0 at the reference or not), or moving ones *)
Rig == Pick(3,4)
NExt == CASE Rig = 0 -> NCam - 1 [] Rig = 1 -> NCam - 1 [] Rig = 2 -> NCam [] OTHER -> 1 + Pick(4,4)
ExtOf(ci,k) == CASE Rig \in {0,1} -> ci - 1 [] Rig = 2 -> ci [] OTHER -> ((k + ci + Pick(5,3)) % (NExt+1)) - 1
NF == <<0,2,2,3,4,5>>[1 + Pick(6,6)]
NP == IF NF = 0 THEN 3 + Pick(7,6) ELSE IF Pick(7,3) = 0 THEN 1 + Pick(8,5) ELSE 0
Seen(f,ci) == NCam = 1 \/ Pick(100+10*f+ci,4) > 0
Boards == Concat([f \in 1..NF |-> Concat([ci \in 1..NCam |-> IF Seen(f,ci) THEN << <<f-1,ci-1,ExtOf(ci-1,f)>> >> ELSE << >>])])
(* the order of the observations of points is free *)
Pts == Concat([i \in 1..NP |-> Concat([j \in 1..NCam |-> LET ci == (j + i*Pick(9,2)) % NCam IN IF Seen(50+i,ci+1) THEN << <<i-1,ci,ExtOf(ci,i)>> >> ELSE << >>])])
Swap(s) == IF Pick(11,3) = 0 /\ Len(s) > 3 THEN SubSeq(s,(Len(s) \div 2) + 1,Len(s)) \o SubSeq(s,1,Len(s) \div 2) ELSE s
Problem == ModelRec(Pick(1,6)) @@ [ncam |-> NCam, next |-> NExt, nf |-> NF, np |-> NP, npf |-> IF NP > 0 /\ Pick(12,3) = 0 THEN Pick(13,NP+1) ELSE 0,
   W |-> 3 + Pick(14,2), H |-> 3, core |-> Prob(15,7), dist |-> Prob(16,7), ext |-> Prob(17,5), frames |-> Prob(18,5), warp |-> Prob(19,3), reg |-> Prob(20,3), unity |-> IF Pick(21,5) = 0 THEN 1 ELSE 0,
   ob |-> Boards, op |-> Swap(Pts), tri |-> IF NExt > 0 /\ Pick(22,40) = 0 THEN << << <<0,-1>>, <<0,0>> >> >> ELSE << >>]
Ok(c) == Valid(c) /\ (c.tri # <<>> => c.core = 0 /\ c.dist = 0)
Init == n \in 1..N
Next == FALSE /\ n' = n
=============================================================================
