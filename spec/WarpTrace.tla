------------------------------ MODULE WarpTrace ------------------------------
EXTENDS Warp, Judge
Ref(c) == CASE c.kind = "map" -> MapRefused(c) [] c.kind = "pin" -> PinRefused(c) [] c.kind = "image" -> c.bad # "no" [] OTHER -> FALSE
Close(a,b) == Abs(a-b) <= 3
VMap(c,o,x) == Bad("shape", o.shape = <<c.h,c.w,2>> /\ o.float32 = 1)
   \cup (IF o.shape # <<c.h,c.w,2>> THEN {} ELSE
     Bad("map", o.err <= 2000) \cup Bad("mask", c.mask = 1 => o.maskok = 1)
     \cup (IF c.exact = 0 \/ Mode(c) = "distance" THEN {} ELSE
        Bad("exact_map", \A i \in 1..(c.w*c.h) : LET v == Seen(c,Ray(c.pinto,(i-1) % c.w,(i-1) \div c.w)) IN
           Visible(v) => LET p == PixelOf(c.pinfrom,v) IN Close(o.map[i][1],p[1]) /\ Close(o.map[i][2],p[2]))))
(* o.scale in millionths *)
ScaleIs(o,s) == LET q == s[1] \div s[2] r == s[1] % s[2] e == q*1000000 + ((r*1000000) \div s[2]) IN Abs(o - e) <= 200 + e \div 100000
VPin(c,o,x) ==
   IF c.direct = 1 THEN Bad("scale", IF c.lens # "PINHOLE" \/ c.fit = "none" THEN (IF c.fit = "none" THEN o.scale = 1000000 ELSE o.fits = 1) ELSE LET s == FitScale(c) IN IF s[1] = 1000000 THEN TRUE ELSE ScaleIs(o.scale,s))
   ELSE
   Bad("lens", o.lens = "LENSMODEL_PINHOLE" /\ o.n = 4) \cup Bad("pose", o.pose = 1)
   \cup Bad("size", IF c.sn = 0 THEN o.size = <<c.w,c.h>> ELSE o.size = <<ScaledSize(c.w,c),ScaledSize(c.h,c)>>)
   \cup Bad("center", IF c.sn = 0 THEN o.center = <<500000*c.pin.x2,500000*c.pin.y2>> ELSE
          \A i \in 1..2 : Abs(o.center[i] - (LET v == ScaledCenter4(IF i = 1 THEN c.pin.x2 ELSE c.pin.y2,c) IN (v*250000) \div c.sd)) <= 10)
   \cup Bad("aspect", o.aspect = 1)
   \cup Bad("scale", IF c.fit # "none" /\ c.lens # "PINHOLE" THEN o.fits = 1
                     ELSE LET s == FocalScale(c) IN IF s[1] = 1000000 THEN TRUE ELSE ScaleIs(o.scale,s))
VImage(c,o,x) == Bad("shape", o.shape = (IF c.ch = 3 THEN <<c.mh,c.mw,3>> ELSE <<c.mh,c.mw>>) /\ o.type = c.dtype)
   \cup Bad("given_output_unused", o.outok = 1)
   \cup (IF Len(o.pix) # c.mw*c.mh*c.ch THEN {} ELSE
     Bad("pixels", \A i \in DOMAIN c.map : \A k \in 1..c.ch : LET d == Abs(o.pix[(i-1)*c.ch + k] - 25*Sampled4(c,c.map[i],k)) IN
        d <= (IF (c.map[i][1] % 2 = 0 /\ c.map[i][2] % 2 = 0) THEN 0 ELSE IF c.dtype \in {"uint8","uint16"} THEN 76 ELSE 1)))
VPoints(c,o,x) == Bad("number_of_points", o.n = Len(c.pts)) \cup (IF o.n # Len(c.pts) THEN {} ELSE Bad("points", o.err <= 5)) \cup Bad("header", o.header = 1)
   \cup Bad("translation_ignored_silently", o.warned = (IF c.intronly = 0 /\ Compose(c.poseto,Invert(c.posefrom)).t # <<0,0,0>> THEN 1 ELSE 0))
V(r) == LET o == r.o c == r.c.c x == r.c.x IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Ref(c) THEN Bad("impossible_question_answered", Has(o,"fail")) ELSE
  IF Has(o,"fail") THEN {"failed"} ELSE
  Bad("arguments_modified", o.pure = 1)
  \cup (CASE c.kind = "map" -> VMap(c,o,x) [] c.kind = "pin" -> VPin(c,o,x) [] c.kind = "image" -> VImage(c,o,x) [] OTHER -> VPoints(c,o,x))
TJudge == Report(V(Recs[pos]))
=============================================================================
