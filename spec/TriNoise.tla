------------------------------ MODULE TriNoise ------------------------------
(* What the uncertainty of triangulated points is made of. A question u is
     pairs   the pairs of cameras, a sequence of <<i0,i1>>
     form    how pairs and pixels are stacked
     cal     noise of the calibration: none, zero, given, infer
     obs     noise of the pixels: none, zero, given, negative
     method, stab
     fault   none, moved, foreign, bare: what is wrong with one of the models *)
EXTENDS Layout
SeqRange(s) == {s[i] : i \in DOMAIN s}
Icam(c,i) ==
  LET S == {<<c.ob[k][2],c.ob[k][3]>> : k \in DOMAIN c.ob} \cup {<<c.op[k][2],c.op[k][3]>> : k \in DOMAIN c.op}
      mine == {s \in S : s[1] = i} IN
  IF c.ncam \in {c.next,c.next+1} /\ (\A s,t \in S : (s[1] = t[1]) <=> (s[2] = t[2])) /\ mine # {} THEN (CHOOSE s \in mine : TRUE)[2] ELSE -2
CalNoise(u) == u.cal \in {"given","infer"}
ObsNoise(u) == u.obs = "given"
Used(u) == UNION {{p[1],p[2]} : p \in SeqRange(u.pairs)}
NIn(c,u) == LET k == Len(c.ob)*c.W*c.H IN 2*(k - (IF u.out = 1 THEN (k+6) \div 7 ELSE 0) + Len(c.op) - (IF u.out = 1 /\ Len(c.op) > 6 THEN 1 ELSE 0))
Refused(c,u) ==
   \/ u.obs = "negative"
   \/ (u.method = "lindstrom" /\ (CalNoise(u) \/ ObsNoise(u)))
   \/ (CalNoise(u) /\ u.fault # "none")
   \/ (CalNoise(u) /\ \E i \in Used(u) : Icam(c,i) = -2)
   \/ (u.cal = "infer" /\ NIn(c,u) <= NStates(c))
   \/ (CalNoise(u) /\ c.tri # <<>>)
(* what is returned: the point, then *)
Returned(u) == (IF u.cal = "none" THEN <<>> ELSE <<"cal">>) \o (IF u.obs = "none" THEN <<>> ELSE <<"obs">>) \o (IF u.cal # "none" /\ u.obs # "none" THEN <<"joint">> ELSE <<>>)
Zero(u,k) == CASE k = "cal" -> ~CalNoise(u) [] k = "obs" -> ~ObsNoise(u) [] OTHER -> ~CalNoise(u) /\ ~ObsNoise(u)
(* the variables of the calibration that the point seen by one pair depends on *)
PairCols(c,u,p) ==
   LET I(i) == IF IdxIntr(c,i) < 0 THEN {} ELSE Run(IdxIntr(c,i),NIntr(c))
       E(i) == IF IdxExt(c,Icam(c,i)) < 0 THEN {} ELSE Run(IdxExt(c,Icam(c,i)),6) IN
   I(p[1]) \cup I(p[2]) \cup E(p[1]) \cup E(p[2])
   \cup (IF u.stab = 1 THEN UNION {Run(IdxFrames(c,f),6) : f \in {g \in 0..(c.nf-1) : IdxFrames(c,g) >= 0}} ELSE {})
(* points seen by pairs that have no variable in common have independent errors only if
   the variables are: the solution correlates them. But nothing to depend on is no error. *)
Exact(c,u,p) == PairCols(c,u,p) = {}
=============================================================================
