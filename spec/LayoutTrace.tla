----------------------------- MODULE LayoutTrace -----------------------------
(* Judges what the code reports for a problem against Layout. *)
EXTENDS Layout, Judge
From(n,F(_)) == [k \in 1..(n+2) |-> F(k-2)]

IndexClauses(c,o,p) ==
     Bad(p \o "num_states", o.n = <<NStIntr(c),NStExt(c),NStFrames(c),NStPoints(c),NStWarp(c),NStates(c)>>)
  \cup Bad(p \o "state_index_intrinsics", o.ii = From(c.ncam,LAMBDA i : IdxIntr(c,i)))
  \cup Bad(p \o "state_index_extrinsics", o.ie = From(c.next,LAMBDA i : IdxExt(c,i)))
  \cup Bad(p \o "state_index_frames",     o["if"] = From(c.nf,LAMBDA i : IdxFrames(c,i)))
  \cup Bad(p \o "state_index_points",     o.ip = From(c.np,LAMBDA i : IdxPoints(c,i)))
  \cup Bad(p \o "state_index_calobject_warp", o.iw = IdxWarp(c))

L01(c,o) ==
  IndexClauses(c,o,"")
  \cup Bad("num_intrinsics_optimization_params", o.nopt = NIntr(c))
  \cup (IF Has(o,"ex") THEN IndexClauses(c,o.ex,"explicit_dims_") ELSE {})
  \cup (IF Has(o,"own") THEN Bad("b_length", o.lenb = NStates(c)) \cup Bad("b_owner", o.own = OwnerState(c)) ELSE {})

L02(c,o) ==
  Bad("num_measurements", o.m = <<NMBoards(c),NMPoints(c),NMTri(c),NMReg(c),NMeas(c)>>)
  \cup Bad("measurement_index_boards", o.imb = [i \in 1..Max2(1,Len(c.ob)) |-> IdxMBoards(c,i-1)])
  \cup Bad("measurement_index_points", o.imp = [i \in 1..Max2(1,Len(c.op)) |-> IdxMPoints(c,i-1)])
  \cup Bad("measurement_index_points_triangulated", o.imt = [i \in 1..Max2(1,Len(c.tri)) |-> IdxMTri(c,i-1)])
  \cup Bad("measurement_index_regularization", o.imr = IdxMReg(c))
  \cup Bad("decode_triangulated",
           o.dec = [i \in 1..NMTri(c) |-> LET d == DecodeTri(c,i-1) IN <<d.iobs0,d.iobs1,TriObs0(c,d.iset),d.nset,Choose2(d.nset),d.iset>>])
  \cup (IF Has(o,"xown") THEN
          Bad("x_length", o.lenx = NMeas(c))
          \cup Bad("x_conflict", o.xconf = 0)
          \cup Bad("x_owner", LET w == OwnerMeas(c) IN Len(o.xown) = Len(w) /\ \A j \in 1..Len(w) :
                     o.xown[j] = (IF w[j][1] >= 3 THEN <<9>> ELSE w[j]))
        ELSE {})

L03(c,o) == IF ~Has(o,"own") THEN {} ELSE
  Bad("unpack_gives_parameters", o.own = OwnerState(c))
  \cup Bad("pack_unpack_roundtrip", o.rt = 1)
  \cup Bad("unpack_pack_roundtrip_many", o.rt2 = 1)
  \cup Bad("pack_broadcast", o.bcast = 1)
  \cup Bad("scale_uniform", o.scok = 1)
  \cup Bad("ingest_input_untouched", o.inarg = 1)
  \cup Bad("ingest_touches_exactly_the_state", SeqSet(o.chg) = SeqSet(OwnerState(c)))
  \cup Bad("ingest_places", o.inown = OwnerState(c))
  \cup Bad("ingest_roundtrip", o.inrt = 1)

(* rejected observations c.out: <<kind, observation, corner>> *)
Rejected(c,m) == Has(c,"out") /\ ((m[1] = 0 /\ <<0,m[2],m[3]>> \in SeqSet(c.out)) \/ (m[1] = 1 /\ <<1,m[2],0>> \in SeqSet(c.out)))
(* ... of a splined model: which of the control points of the camera are stored (as 0) does not matter *)
ZeroRowOK(c,m,cols) == LET ic == (IF m[1] = 0 THEN c.ob[m[2]+1][2] ELSE c.op[m[2]+1][2])
                           dist == IF B(c.dist) /\ c.nd > 0 THEN Run(IdxIntr(c,ic)+NCoreSt(c),c.nd) ELSE {}
                           xy == IF m[1] = 0 THEN m[4] ELSE m[3]
                       IN cols \ dist = CoreCols(c,ic,xy) \cup GeomCols(c,m) /\ Cardinality(cols) = Cardinality(GeomCols(c,m)) + Cardinality(CoreCols(c,ic,xy)) + (IF dist = {} THEN 0 ELSE IF c.sp[1] > 0 THEN (c.sp[1]+1)*(c.sp[1]+1) ELSE c.nd)
L04(c,o) == IF ~Has(o,"rows") THEN {} ELSE
  Bad("inputs_modified", o.pure = 1)
  \cup Bad("jacobian_shape", o.jshape = <<NMeas(c),NStates(c)>>)
  \cup Bad("jacobian_structure",
        LET w == OwnerMeas(c) IN Len(o.rows) = Len(w) /\ \A j \in 1..Len(w) : Cardinality(SeqSet(o.rows[j])) = Len(o.rows[j]) /\ (RowOK(c,w[j],SeqSet(o.rows[j])) \/ (Rejected(c,w[j]) /\ ZeroRowOK(c,w[j],SeqSet(o.rows[j])))))
  \cup Bad("finite", o.fin = 1)
  \cup Bad("no_jacobian_consistent", o.same = 1)
  \cup Bad("hidden_dependency", o.dep = <<>>)
  (* only those of rejected observations (c.out: <<kind, observation, corner>>) depend on nothing *)
  \cup Bad("dead_measurement", LET w == OwnerMeas(c)
                                   cells(k) == SeqSet(o.rows[k]) \cap (0..(NStates(c)-NStWarp(c)-1))
                               IN Len(o.rows) = Len(w) => SeqSet(o.dead) = {k-1 : k \in {k \in DOMAIN w : cells(k) # {} /\ Rejected(c,w[k])}})
  \cup Bad("gradient", o.grad = 0)

V(r) == LET c == r.c  o == r.o IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  CASE IOEnv.PROP = "L01" -> L01(c,o)
    [] IOEnv.PROP = "L02" -> L02(c,o)
    [] IOEnv.PROP = "L03" -> L03(c,o)
    [] IOEnv.PROP = "L04" -> L04(c,o)

TJudge == Report(V(Recs[pos]))
=============================================================================
