----------------------------- MODULE PoseTrace -----------------------------
(* Judges poses, points and gradients the code produced in a behaviour of MCPose.
   Numbers are reported scaled by the denominators of the exact result; a number that is
   not an integer after scaling (within the tolerance of the driver) is reported as a string. *)
EXTENDS Pose, Judge
Round(P) == LET n == Norm2(P.q) IN [R |-> Mat(P.q), t |-> P.t]
Pts == << <<1,0,0>>, <<0,-2,5>>, <<3,4,-7>>, <<0,0,0>> >>
NegQ(q) == [i \in 1..4 |-> -q[i]]
V(r) == LET o == r.o  P == Run(Gens[r.c.start],r.c.ops)  n == Norm2(P.q) IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  Bad("compose_Rt", o.Rt = [R |-> Mat(P.q), t |-> P.t])
  \cup Bad("compose_rt", o.rt = [R |-> Mat(P.q), t |-> P.t])
  \cup Bad("compose_r", o.r = Mat(P.q))
  \cup Bad("r_from_R_magnitude", o.rmag = 1)
  \cup Bad("qt_from_Rt", o.q \in {P.q, NegQ(P.q)} /\ o.qtt = P.t)
  \cup Bad("Rt_from_qt", o.fromqt = [R |-> Mat(P.q), t |-> P.t])
  \cup Bad("in_place_or_out", o.out = <<>>)
  \cup Bad("inputs_modified", o.pure = <<>>)
  \cup Bad("broadcasting", o.bcast = <<>>)
  \cup Bad("gradient", o.grad = <<>>)
  \cup Bad("invert_functions", LET I == Invert(P) IN o.invRt = [R |-> Mat(I.q), t |-> RotateR(InvQ(P.q),[k \in 1..3 |-> -P.t[k]],P.d).t] /\ o.invrt = o.invRt /\ o.invR = Mat(I.q))
  \cup UNION { LET y == TransformR(P,Pts[i],1)  z == TransformInvR(P,Pts[i],1)  w == RotateR(P.q,Pts[i],1)  u == RotateR(InvQ(P.q),Pts[i],1)
                   sc(v) == [k \in 1..3 |-> v.t[k] * ((n*P.d) \div v.d)] IN
               Bad("transform_point", o.pt[i].T = sc(y) /\ o.pt[i].rt = sc(y))
               \cup Bad("transform_point_inverted", o.pt[i].Ti = sc(z) /\ o.pt[i].rti = sc(z))
               \cup Bad("rotate_point", o.pt[i].R = sc(w) /\ o.pt[i].r = sc(w))
               \cup Bad("rotate_point_inverted", o.pt[i].Ri = sc(u) /\ o.pt[i].ri = sc(u)) : i \in 1..Len(Pts) }
TJudge == Report(V(Recs[pos]))
=============================================================================
