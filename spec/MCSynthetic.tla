----------------------------- MODULE MCSynthetic -----------------------------
EXTENDS Rigs, Synthetic, Json
Perfect == [kind |-> "perfect", p |-> Problem, sigma |-> 1 + Pick(41,9), seed |-> Pick(42,1000), default |-> IF Pick(43,3) = 0 THEN 1 ELSE 0,
   noext |-> Pick(44,2), absent |-> Pick(45,3), warp |-> <<"as is","as is","none","zero">>[1 + Pick(46,4)]]
Whichs == <<"all-cameras-must-see-full-board","some-cameras-must-see-full-board","all-cameras-must-see-half-board","some-cameras-must-see-half-board">>
Bds == [kind |-> "boards", lens |-> <<"pinhole","opencv","splined","stereographic">>[1 + Pick(41,4)], ncam |-> 1 + Pick(42,3), w |-> 2 + Pick(43,4), h |-> 2 + Pick(44,3), spacing |-> 10 + 5*Pick(45,8),
   warp |-> Pick(46,3), z |-> 20 + 5*Pick(47,5), x |-> 2*(Pick(48,7) - 3), noiser |-> <<0,20,60,100>>[1 + Pick(49,4)], noiset |-> <<0,30,80,150>>[1 + Pick(50,4)], axis |-> Pick(51,7),
   frames |-> 1 + Pick(52,5), which |-> IF Pick(53,25) = 0 THEN "full" ELSE Whichs[1 + Pick(53,4)], usewhich |-> Pick(54,5), oblique |-> <<-1,-1,15,40>>[1 + Pick(55,4)], pcam |-> <<Pick(56,5)-2,Pick(57,5)-2,Pick(58,3)-1>>, given |-> Pick(59,2),
   flip |-> Pick(60,2), seed |-> Pick(61,1000), side |-> Pick(62,3)]
Case == IF Pick(40,3) < 2 THEN Bds ELSE Perfect
Good(c) == c.kind = "perfect" => Ok(c.p) /\ c.p.tri = <<>> /\ (c.p.ob # <<>> \/ c.p.op # <<>>)
Laws == \A k \in 1..4 : LET full == [i \in 1..2 |-> 9] none == [i \in 1..2 |-> 0] IN
   /\ Enough(Whichs[k],full,9) /\ ~Enough(Whichs[k],none,9)
   /\ Enough(Whichs[k],<<9,4>>,9) <=> k \in {2,4}
   /\ Enough(Whichs[1],<<k,5>>,5) => \A j \in 1..4 : Enough(Whichs[j],<<k,5>>,5)
Export == Good(Case) => PrintT("CASE " \o ToJson([c |-> Case]))
=============================================================================
