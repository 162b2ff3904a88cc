----------------------------- MODULE MCSolveAny -----------------------------
(* Histories of calls of the optimizer on arbitrary problems: those of MCResidual *)
EXTENDS MCResidual
OpsAny == [k \in 1..3 |-> [flags |-> [j \in 1..6 |-> Pick(7000+10*k+j,2)], rej |-> Pick(7100+k,2), npf |-> Pick(7200+k,Len(Prob.points)+1), bump |-> Pick(7300+k,3)]]
ExportAny == PrintT("CASE " \o ToJson([kind |-> "any", c |-> Case, ops |-> OpsAny]))
=============================================================================
