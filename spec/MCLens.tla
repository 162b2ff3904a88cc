------------------------------- MODULE MCLens -------------------------------
(* Well-formed names, and what mistakes make of them. *)
EXTENDS Lens, Json
CONSTANTS Stride, Seed, Muts
VARIABLES name, muts, h
vars == <<name,muts,h>>
Bases == PlainNames \cup Configured
Init == /\ muts = 0
        /\ \/ \E b \in PlainNames : name = [base |-> b, cfg |-> <<>>, tail |-> ""]
           \/ \E v \in DOMAIN Reals : name = [base |-> CAHVORE, cfg |-> << <<"linearity",v>> >>, tail |-> ""]
           \/ \E o \in {"2","3"}, x \in {"5","7","11","30"}, y \in {"5","7","11"}, f \in {"90","180"} :
                 name = [base |-> SPLINED, cfg |-> << <<"order",o>>,<<"Nx",x>>,<<"Ny",y>>,<<"fov_x_deg",f>> >>, tail |-> ""]
        /\ h = Seed % 97
Drop(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
Swap(s,i) == [s EXCEPT ![i] = s[i+1], ![i+1] = s[i]]
Other == {"LENSMODEL_OPENCV","LENSMODEL_SPLINED","PINHOLE","lensmodel_pinhole","LENSMODEL_OPENCV44","", "LENSMODEL", "DISTORTION_OPENCV8"}
Next == /\ muts < Muts /\ muts' = muts+1
        /\ \/ \E i \in DOMAIN name.cfg : name' = [name EXCEPT !.cfg = Drop(name.cfg,i)] /\ h' = (h*31 + i) % 9973
           \/ \E i \in 1..(Len(name.cfg)-1) : name' = [name EXCEPT !.cfg = Swap(name.cfg,i)] /\ h' = (h*31 + 7 + i) % 9973
           \/ \E i \in DOMAIN name.cfg : name' = [name EXCEPT !.cfg = SubSeq(name.cfg,1,i) \o SubSeq(name.cfg,i,Len(name.cfg))] /\ h' = (h*31 + 11 + i) % 9973
           \/ \E i \in DOMAIN name.cfg, v \in BadValues : name' = [name EXCEPT !.cfg[i][2] = v] /\ h' = (h*31 + 17 + i) % 9973
           \/ \E i \in DOMAIN name.cfg, k \in {"nx","N","","linearity2"} : name' = [name EXCEPT !.cfg[i][1] = k] /\ h' = (h*31 + 23 + i) % 9973
           \/ \E t \in {"_","x","_foo=3"," ","=","_linearity=0.1","1"} : name.tail = "" /\ name' = [name EXCEPT !.tail = t]
                   /\ (t \in {"1"} => name.cfg = <<>>) /\ h' = (h*31 + 29) % 9973
           \/ \E b \in Bases \cup Other : name' = [name EXCEPT !.base = b] /\ h' = (h*31 + 37) % 9973
(* the concatenation has to determine the name: these are the other spellings of well-formed ones *)
Ambiguous == \/ name.base = "LENSMODEL_OPENCV" /\ name.tail \in {"4","5","8"}
             \/ name.base = CAHVORE /\ name.cfg = <<>> /\ name.tail = "_linearity=0.1"
             \/ name.base \in Configured /\ name.cfg = <<>> /\ name.tail \in {"_foo=3","_linearity=0.1"}
Laws == /\ (Verdict(name) = "ok" => NumParams(name) >= 4)
        /\ (muts = 0 => Verdict(name) = "ok")
        /\ (Verdict(name) = "ok" => [name EXCEPT !.cfg = [i \in DOMAIN name.cfg |-> <<Keys(name.base)[i],name.cfg[i][2]>>]] = name)
Export == (~Ambiguous /\ (muts < 2 \/ (h + Seed) % Stride = 0)) => PrintT("CASE " \o ToJson([n |-> name, text |-> Text(name)]))
=============================================================================
