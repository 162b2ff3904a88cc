-------------------------------- MODULE Lens --------------------------------
(* The names of lens models. A name is a base, an ordered list of _key=value
   configuration entries and possibly something else at the end; what it means is
   decided by this grammar. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Plain == << <<"LENSMODEL_PINHOLE",4>>, <<"LENSMODEL_STEREOGRAPHIC",4>>, <<"LENSMODEL_LONLAT",4>>, <<"LENSMODEL_LATLON",4>>,
            <<"LENSMODEL_OPENCV4",8>>, <<"LENSMODEL_OPENCV5",9>>, <<"LENSMODEL_OPENCV8",12>>, <<"LENSMODEL_OPENCV12",16>>,
            <<"LENSMODEL_CAHVOR",9>> >>
CAHVORE == "LENSMODEL_CAHVORE"
SPLINED == "LENSMODEL_SPLINED_STEREOGRAPHIC"
PlainNames == {Plain[i][1] : i \in DOMAIN Plain}
PlainN(b) == (CHOOSE i \in DOMAIN Plain : Plain[i][1] = b)
Keys(b) == IF b = CAHVORE THEN <<"linearity">> ELSE <<"order","Nx","Ny","fov_x_deg">>
Configured == {CAHVORE,SPLINED}
(* the values used: text -> integer (real numbers in 1/1000) *)
Reals == [x \in {"0.37","0","0.375","-1.5","1e-3","2"} |->
            CASE x = "0.37" -> 370 [] x = "0" -> 0 [] x = "0.375" -> 375 [] x = "-1.5" -> -1500 [] x = "1e-3" -> 1 [] x = "2" -> 2000]
Ints == [x \in {"2","3","5","7","11","30","90","180"} |->
            CASE x = "2" -> 2 [] x = "3" -> 3 [] x = "5" -> 5 [] x = "7" -> 7 [] x = "11" -> 11 [] x = "30" -> 30 [] x = "90" -> 90 [] x = "180" -> 180]
BadValues == {"","abc","0.5x"}
IsVal(b,v) == IF b = CAHVORE THEN v \in DOMAIN Reals ELSE v \in DOMAIN Ints
Val(b,v) == IF b = CAHVORE THEN Reals[v] ELSE Ints[v]

RECURSIVE Cfg(_)
Cfg(c) == IF c = <<>> THEN "" ELSE "_" \o c[1][1] \o "=" \o c[1][2] \o Cfg(Tail(c))
Text(n) == n.base \o Cfg(n.cfg) \o n.tail

(* "ok", or the reason why this is not the name of a lens model *)
Verdict(n) ==
  IF n.base \in PlainNames THEN (IF n.cfg = <<>> /\ n.tail = "" THEN "ok" ELSE "type")
  ELSE IF n.base \in Configured THEN
     IF n.cfg = <<>> /\ n.tail = "" THEN "missing"
     ELSE IF n.cfg = <<>> /\ n.tail # "_" THEN "type"
     ELSE IF /\ n.tail = "" /\ Len(n.cfg) = Len(Keys(n.base))
             /\ \A i \in DOMAIN n.cfg : n.cfg[i][1] = Keys(n.base)[i] /\ IsVal(n.base,n.cfg[i][2])
          THEN "ok" ELSE "bad"
  ELSE "type"
Values(n) == [i \in DOMAIN n.cfg |-> Val(n.base,n.cfg[i][2])]
NumParams(n) == IF n.base \in PlainNames THEN Plain[PlainN(n.base)][2]
                ELSE IF n.base = CAHVORE THEN 12
                ELSE LET v == Values(n) IN 4 + 2*v[2]*v[3]
Core(n) == TRUE
Behind(n) == n.base \in {SPLINED,"LENSMODEL_STEREOGRAPHIC","LENSMODEL_LONLAT","LENSMODEL_LATLON"}
Noncentral(n) == n.base = CAHVORE
(* the knots of the splined model, for a field of view of 180 degrees: multiples of 1/(Nx-1-margin) *)
Margin(n) == IF Values(n)[1] = 2 THEN 1 ELSE 2
Knot180(n,N,i) == 2*(2*(i-1) - (N-1))
=============================================================================
