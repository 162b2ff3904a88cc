------------------------------ MODULE MCLayout ------------------------------
(* All problems reachable by editing: toggling what is optimized, adding cameras,
   frames, points and observations. Checks the design properties of Layout in each
   reachable problem, that locking a group of variables removes exactly this group
   from the state vector, and exports problems to be replayed into the code. *)
EXTENDS Layout, Json
CONSTANTS Models, MaxCam, MaxExt, MaxOb, MaxNp, MaxOp, MaxTri, Dims, Stride, Seed
ModelRec(m) == CASE m = "PINHOLE" -> [model |-> "LENSMODEL_PINHOLE", ncore |-> 4, nd |-> 0, sp |-> <<0,0,0>>]
                 [] m = "OPENCV4" -> [model |-> "LENSMODEL_OPENCV4", ncore |-> 4, nd |-> 4, sp |-> <<0,0,0>>]
                 [] m = "OPENCV8" -> [model |-> "LENSMODEL_OPENCV8", ncore |-> 4, nd |-> 8, sp |-> <<0,0,0>>]
                 [] m = "CAHVOR"  -> [model |-> "LENSMODEL_CAHVOR",  ncore |-> 4, nd |-> 5, sp |-> <<0,0,0>>]
                 [] m = "SPL3"    -> [model |-> "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=120", ncore |-> 4, nd |-> 40, sp |-> <<3,5,4>>]
                 [] m = "SPL2"    -> [model |-> "LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=4_Ny=3_fov_x_deg=120", ncore |-> 4, nd |-> 24, sp |-> <<2,4,3>>]
VARIABLES c, act
vars == <<c,act>>
Init == \E m \in Models, d \in Dims :
   /\ c = ModelRec(m) @@ [ncam |-> 1, next |-> 0, nf |-> 0, np |-> 0, npf |-> 0, W |-> d \div 10, H |-> d % 10,
          core |-> 1, dist |-> 1, ext |-> 1, frames |-> 1, warp |-> 1, reg |-> 1, unity |-> 0,
          ob |-> <<>>, op |-> <<>>, tri |-> <<>>]
   /\ act = "init"
Set(f,v) == c' = [c EXCEPT ![f] = v]
Toggle(f) == Set(f,1-c[f]) /\ act' = "toggle_" \o f
AddCamera == c.ncam < MaxCam /\ Set("ncam",c.ncam+1) /\ act' = "camera"
AddExt    == c.next < MaxExt /\ Set("next",c.next+1) /\ act' = "ext"
AddFrame  == \E ci \in 0..(c.ncam-1), ce \in -1..(c.next-1) :
             /\ Len(c.ob) < MaxOb
             /\ c' = [c EXCEPT !.nf = @+1, !.ob = Append(@,<<c.nf,ci,ce>>)] /\ act' = "frame"
AddView   == \E ci \in 0..(c.ncam-1), ce \in -1..(c.next-1) :
             /\ Len(c.ob) < MaxOb /\ c.ob # <<>> /\ c.ob[Len(c.ob)][2] <= ci /\ c.ob[Len(c.ob)][3] <= ce
             /\ c' = [c EXCEPT !.ob = Append(@,<<c.nf-1,ci,ce>>)] /\ act' = "view"
AddPoint  == \E ci \in 0..(c.ncam-1), ce \in -1..(c.next-1) :
             /\ c.np < MaxNp /\ Len(c.op) < MaxOp
             /\ c' = [c EXCEPT !.np = @+1, !.op = Append(@,<<c.np,ci,ce>>)] /\ act' = "point"
AddPView  == \E ci \in 0..(c.ncam-1), ce \in -1..(c.next-1), p \in 0..(c.np-1) :
             /\ Len(c.op) < MaxOp
             /\ c' = [c EXCEPT !.op = Append(@,<<p,ci,ce>>)] /\ act' = "pview"
FixPoint  == c.npf < c.np /\ Set("npf",c.npf+1) /\ act' = "fix"
AddTri    == /\ Len(c.tri) < MaxTri /\ c.next > 0
             /\ \E n \in 2..(c.next+1) : c' = [c EXCEPT !.tri = Append(@,[k \in 1..n |-> <<(k-1) % c.ncam, k-2>>]), !.core = 0, !.dist = 0, !.ext = 1]
             /\ act' = "tri"
Next == \/ \E f \in {"core","dist","ext","frames","warp","reg","unity"} : Toggle(f)
        \/ AddCamera \/ AddExt \/ AddFrame \/ AddView \/ AddPoint \/ AddPView \/ FixPoint \/ AddTri
ValidC == Valid(c)
Inv == StatePartition(c) /\ StateIndexOwns(c) /\ MeasPartition(c) /\ DecodeInverts(c)
(* locking a group removes exactly this group; the others keep their order *)
Minus(s,T(_)) == SelectSeq(s, LAMBDA o : ~T(o))
LockRemoves ==
  LET O == OwnerState(c)  P == OwnerState(c') IN
  /\ (act' = "toggle_frames" /\ c.frames = 1) => P = Minus(O, LAMBDA o : o[1] \in {2,3})
  /\ (act' = "toggle_ext"    /\ c.ext = 1)    => P = Minus(O, LAMBDA o : o[1] = 1)
  /\ (act' = "toggle_warp"   /\ c.warp = 1)   => P = Minus(O, LAMBDA o : o[1] = 4)
  /\ (act' = "toggle_core"   /\ c.core = 1)   => P = Minus(O, LAMBDA o : o[1] = 0 /\ o[3] < c.ncore)
  /\ (act' = "toggle_dist"   /\ c.dist = 1)   => P = Minus(O, LAMBDA o : o[1] = 0 /\ o[3] >= c.ncore)
  /\ (act' \in {"toggle_reg","toggle_unity","pview"}) => P = O
  /\ (act' = "fix" /\ c.frames = 1) => P = Minus(O, LAMBDA o : o[1] = 3 /\ o[2] = NVarPoints(c')) 
  /\ (act' \in {"toggle_frames","toggle_warp"}) => OwnerMeas(c') = OwnerMeas(c)
  /\ (act' = "toggle_reg" /\ c.reg = 1) => OwnerMeas(c') = Minus(OwnerMeas(c), LAMBDA o : o[1] \in {3,4})
LockProp == [][LockRemoves]_vars
View == c
Hash == 7*c.ncam + 11*c.next + 13*c.nf + 17*c.np + 19*c.npf + c.core*23 + c.dist*29 + c.ext*31 + c.frames*37
        + c.warp*41 + c.reg*43 + c.unity*47 + 53*Len(c.ob) + 59*Len(c.op) + 61*Len(c.tri) + c.nd*67
        + SumSeq([k \in 1..Len(c.ob) |-> 71*k*(c.ob[k][2]+2*c.ob[k][3]+3)]) + SumSeq([k \in 1..Len(c.op) |-> 73*k*(c.op[k][2]+2*c.op[k][3]+3+5*c.op[k][1])])
Export == (Valid(c) /\ (Hash + Seed) % Stride = 0) => PrintT("CASE " \o ToJson(c))
=============================================================================
