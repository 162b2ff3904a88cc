----------------------------- MODULE SolveTrace -----------------------------
(* Judges histories of mrcal.optimize() *)
EXTENDS Solve, Judge
(* exact histories: the weights, residuals, and statistics after every operation *)
X(w,e) == [k \in 1..(2*Len(w)) |-> LET m == (k+1) \div 2 IN IF In(w[m]) THEN w[m]*e[m][2-(k%2)] ELSE 0]
VExact(r) == UNION { LET b == Run(r.c.s,r.c.ops,k)  o == r.o.after[k] IN
     Bad("weights", o.w = b.w /\ o.pw = b.pw)
  \cup Bad("observations_modified", o.px = 1)
  \cup (IF r.c.ops[k][1] # "solve" THEN {} ELSE
          Bad("x_at_the_solution", o.x = X(b.w,b.e) /\ o.xp = X(b.pw,b.pe))
     \cup Bad("recovers_the_solution", o.sol = 1)
     \cup Bad("locked_parameters_modified", o.locked = 1)
     \cup Bad("Noutliers_board", o.nout \in Nout(b))
     \cup Bad("rms", o.rms2 = Norm2X(b))
     \cup SeqSet(o.bad)) : k \in DOMAIN r.c.ops }
(* any other histories: relations between what was there before and after. Parameters are <<kind,which,component>>:
   kind 0 intrinsics, 1 extrinsics, 2 frames, 3 points, 4 warp *)
Free(p,f,npf,q) == CASE q[1] = 0 -> (q[3] < 4 /\ f[1] = 1) \/ (q[3] >= 4 /\ f[2] = 1)
                     [] q[1] = 1 -> f[3] = 1
                     [] q[1] = 2 -> f[4] = 1
                     [] q[1] = 3 -> f[4] = 1 /\ q[2] < Len(p.points) - npf
                     [] q[1] = 4 -> f[5] = 1 /\ Len(p.ob) > 0
VAny(r) == UNION { LET o == r.o.after[k] op == r.c.ops[k] p == r.c.c.p IN
  IF Has(o,"failed") THEN {} ELSE
     Bad("locked_parameters_modified", \A q \in SeqSet(o.chg) : Free(p,o.flags,o.npf,q))
  \cup Bad("observations_modified", o.px = 1)
  \cup Bad("weights", \A m \in DOMAIN o.w0 : o.w1[m] = o.w0[m] \/ (op.rej = 1 /\ In(o.w0[m]) /\ o.w1[m] = -o.w0[m]))
  \cup Bad("point_weights", o.pw0 = o.pw1)
  \cup Bad("Noutliers_board", o.nout \in Nout([w |-> o.w1]))
  \cup Bad("left_beyond_5_sigma", op.rej = 0 \/ o.far = 0)
  \cup SeqSet(o.bad) : k \in DOMAIN r.o.after }
V(r) == IF Has(r.o,"crash") THEN {"crash"} ELSE IF r.c.kind = "exact" THEN VExact(r) ELSE VAny(r)
TJudge == Report(V(Recs[pos]))
=============================================================================
