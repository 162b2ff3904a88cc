---------------------------- MODULE FormatsTrace ----------------------------
EXTENDS Formats, Judge
(* every part of a camera that differs *)
Same(o,m) == LET s == Seen(m) IN IF ~Has(o,"lens") THEN {"no_model"} ELSE
   Bad("lens_model", o.lens = s.lens /\ o.lin = s.lin) \cup Bad("intrinsics", o.f = s.f) \cup Bad("distortions", o.dist = s.dist /\ o.r = s.r /\ o.e = s.e /\ o.o = s.o)
   \cup Bad("rotation", o.R = s.R) \cup Bad("translation", o.t = s.t) \cup Bad("imager_size", o.size = s.size) \cup Bad("valid_region", o.region = s.region)
WriteV(c,o) ==
  IF c.m.lens \notin (IF c.fmt = "ros" THEN CanRos ELSE CanCahvor) THEN Bad("unsupported_model_written", o.ok = 0)
  ELSE IF o.ok = 0 THEN {"failed"}
  ELSE Same(o.back, IF c.fmt = "ros" THEN AfterRos(c.m) ELSE AfterCahvor(c.m))
    \cup (IF c.fmt = "ros" THEN {} ELSE LET F == FileOf(c.m) IN
       Bad("vectors_in_the_file", o.file.C = F.C /\ o.file.A = F.A /\ o.file.H = F.H /\ o.file.V = F.V /\ (c.m.lens \in Cahvors => o.file.O = F.O))
       \cup Bad("dimensions_in_the_file", o.file.D = c.m.size)
       \cup Bad("note", o.note = 1))
    \cup Bad("model_modified", o.pure = 1)
CReadV(c,o) == IF ~CahvorOk(c) THEN Bad("invalid_file_accepted", o.ok = 0) ELSE IF o.ok = 0 THEN {"valid_file_rejected"} ELSE Same(o.back,CahvorRead(c))
RosV(c,o) == IF ~RosOk(c) THEN Bad("invalid_file_accepted", o.ok = 0) ELSE IF o.ok = 0 THEN {"valid_file_rejected"} ELSE Same(o.back,RosRead(c))
KalibrV(c,o) ==
  IF ~ToKalibr(c) THEN Bad("unsupported_model_written", o.rcto # 0 /\ o.outto = 0)
  ELSE IF o.rcto # 0 THEN {"failed"}
  ELSE LET T == Chain(c) IN
    Bad("cameras", o.names = [i \in DOMAIN c.ms |-> <<"cam0","cam1","cam2">>[i]])
    \cup Bad("contents_of_the_file", o.y = [i \in DOMAIN c.ms |-> Yaml(c.ms[i])])
    \cup Bad("chain", \A i \in DOMAIN c.ms : o.T[i] = IF HasT(c,i) THEN [R |-> Mat(T[i].q), t |-> [j \in 1..3 |-> Norm2(T[i].q)*T[i].t[j]]] ELSE [R |-> 0, t |-> 0])
    \cup (IF ~FromKalibr(c) THEN Bad("invalid_file_accepted", o.rcfrom # 0 /\ o.files = << >>)
          ELSE IF o.rcfrom # 0 THEN {"valid_file_rejected"}
          ELSE Bad("files", Len(o.files) = Cardinality({i \in DOMAIN c.ms : Wanted(c,i)}))
            \cup UNION { IF Wanted(c,i) THEN Same(o.back[i],KalibrRead(c,i)) ELSE Bad("not_asked_for", o.back[i].found = 0) : i \in DOMAIN c.ms })
ToolV(c,o) == Bad("exit_code", o.rc = 0) \cup Bad("outputs", o.out = [i \in DOMAIN c.files |-> Outcome(c,i)]) \cup Bad("other_files", o.extra = 0) \cup Bad("inputs_modified", o.pure = 1)
GraftV(c,o) == IF o.rc # 0 THEN {"failed"} ELSE Same(o.back,[c.a EXCEPT !.P = c.b.P])
V(r) == LET o == r.o c == r.c.c IN
  IF Has(o,"crash") THEN {"crash"} ELSE
  IF Has(o,"exc") THEN {"exception"} ELSE
  CASE c.kind = "write" -> WriteV(c,o)
    [] c.kind = "cahvorread" -> CReadV(c,o)
    [] c.kind = "ros" -> RosV(c,o)
    [] c.kind = "kalibr" -> KalibrV(c,o)
    [] c.kind = "tool" -> ToolV(c,o)
    [] OTHER -> GraftV(c,o)
TJudge == Report(V(Recs[pos]))
=============================================================================
