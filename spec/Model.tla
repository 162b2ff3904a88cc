------------------------------- MODULE Model -------------------------------
(* The camera-model object: two models A and B, and everything that may be done to
   them. A model is [lens, size, pose, reg, opt, ii, ie]; all of the values are
   indices into tables of concrete data. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
None == -9
(* lenses: 1 pinhole, 2 and 3 opencv4, 4 cahvore, 5 splined; the others are invalid *)
GoodLens == 1..5
BadLens == 6..10          \* wrong number of parameters, no such model, not numeric, not a pair, missing configuration
(* imager sizes: 1,2 valid; 7 is size 1, given as floating-point integers; 3..6 invalid *)
SizeOf(s) == IF s = 7 THEN 1 ELSE s
GoodSize == {1,2,7}
BadSize == 3..6           \* not integers, 0, negative, three of them
(* regions: -1 none, 0 the empty one, 1 closed, 2 another one; 3: region 2 given not closed; 4: a triangle, given not closed;
   5: a closed triangle. 6,7 invalid: two points, wrong shape *)
RegOf(r) == CASE r = 3 -> 2 [] r = 5 -> 4 [] OTHER -> r
GoodReg == 0..5
BadReg == 6..7
Poses == 0..3
(* optimization inputs: 0 none; 1: two stationary cameras, the first at the reference; 2: a moving camera *)
OptPose(o,ie) == IF ie < 0 THEN 0 ELSE IF o = 1 THEN 2 ELSE IF ie = 0 THEN 1 ELSE 3
OptLens(o,ii) == IF o = 1 THEN (IF ii = 0 THEN 2 ELSE 3) ELSE 3
OptSize(o,ii) == IF o = 1 THEN (IF ii = 0 THEN 1 ELSE 2) ELSE 2
OptNcam(o) == IF o = 1 THEN 2 ELSE 1
OptNext(o) == IF o = 1 THEN 1 ELSE 2
Inferred(o,ii) == IF o = 1 THEN ii - 1 ELSE None          \* None: there is no such thing
PoseKinds == {"rt_cam_ref","rt_ref_cam","Rt_cam_ref","Rt_ref_cam",
              "extrinsics_rt_fromref","extrinsics_rt_toref","extrinsics_Rt_fromref","extrinsics_Rt_toref"}
M(l,s,p,r,o,i,e) == [lens |-> l, size |-> s, pose |-> p, reg |-> r, opt |-> o, ii |-> i, ie |-> e]

(* models: a sequence of two; <<>> if there is no model there *)
(* the result of an operation: [m: the models, err: was it rejected] *)
Fail(ms) == [m |-> ms, err |-> TRUE]
Ok(ms) == [m |-> ms, err |-> FALSE]
Set(ms,k,x) == Ok([ms EXCEPT ![k] = <<x>>])
(* fields of an operation: op, k (which model), and
   new:   lens,size,kind,pose,reg          discrete values; kind "none": no pose given; -9: not given
   newopt: opt,ii,ie
   intr:  lens,size,opt,ii,ie
   pose:  kind,pose (-1: invalid)
   reg, resetreg, resetopt
   copy:  from
   file:  from, via
   many:  a constructor with several sources
   sizeset, optset: attempts to set what cannot be set on its own *)
Apply(ms,o) ==
  LET k == o.k  m == IF ms[k] = <<>> THEN M(1,1,0,-1,0,None,None) ELSE ms[k][1] IN
  CASE o.op = "new" ->
      IF o.lens \in GoodLens /\ o.size \in GoodSize /\ (o.kind = "none" \/ o.pose \in Poses)
      THEN Set(ms,k,M(o.lens,SizeOf(o.size),IF o.kind = "none" THEN 0 ELSE o.pose,IF o.reg \in GoodReg THEN RegOf(o.reg) ELSE -1,0,None,None))
      ELSE Fail(ms)
  [] o.op = "newopt" ->
      LET e == IF o.ie = None THEN Inferred(o.opt,o.ii) ELSE o.ie IN
      IF o.opt # 0 /\ o.ii # None /\ o.ii >= 0 /\ o.ii < OptNcam(o.opt) /\ e # None /\ e < OptNext(o.opt)
      THEN Set(ms,k,M(OptLens(o.opt,o.ii),OptSize(o.opt,o.ii),OptPose(o.opt,e),IF o.reg \in GoodReg THEN RegOf(o.reg) ELSE -1,o.opt,o.ii,e))
      ELSE Fail(ms)
  [] o.op = "intr" ->
      IF o.lens = None /\ o.size = None /\ o.opt = 0 /\ o.ii = None THEN Ok(ms)               \* that's a getter
      ELSE LET s == IF o.size = None THEN m.size ELSE o.size
               e == IF o.opt = 0 THEN None ELSE IF o.ie = None THEN Inferred(o.opt,o.ii) ELSE o.ie IN
           IF o.lens \in GoodLens /\ s \in GoodSize
              /\ (IF o.opt = 0 THEN o.ii = None /\ o.ie = None ELSE o.ii # None /\ o.ii >= 0 /\ e # None)
           THEN Set(ms,k,M(o.lens,SizeOf(s),m.pose,-1,o.opt,o.ii,e))
           ELSE Fail(ms)
  [] o.op = "pose" -> IF o.pose \in Poses THEN Set(ms,k,[m EXCEPT !.pose = o.pose]) ELSE Fail(ms)
  [] o.op = "reg" -> IF o.reg \in GoodReg THEN Set(ms,k,[m EXCEPT !.reg = RegOf(o.reg)]) ELSE Fail(ms)
  [] o.op = "resetreg" -> Set(ms,k,[m EXCEPT !.reg = -1])
  [] o.op = "resetopt" -> Set(ms,k,[m EXCEPT !.opt = 0, !.ii = None, !.ie = None])
  [] o.op \in {"copy","file"} -> Set(ms,k,ms[o.from][1])
  [] o.op \in {"many","sizeset","optset"} -> Fail(ms)

(* the operations, in groups *)
New(k) == [op : {"new"}, k : {k}, lens : {1,2,4,5}, size : {1,2}, kind : {"none"}, pose : {0}, reg : {-1,1,3,0,4,5}]
     \cup [op : {"new"}, k : {k}, lens : {2}, size : {1}, kind : PoseKinds, pose : {1,2,3}, reg : {-1,2}]
NewBad(k) == [op : {"new"}, k : {k}, lens : BadLens \cup {None}, size : {1}, kind : {"none"}, pose : {0}, reg : {-1}]
     \cup [op : {"new"}, k : {k}, lens : {2}, size : BadSize \cup {None,7}, kind : {"none","rt_cam_ref"}, pose : {2}, reg : {-1,1}]
     \cup [op : {"new"}, k : {k}, lens : {3}, size : {2}, kind : {"rt_cam_ref","rt_ref_cam","Rt_ref_cam"}, pose : {-1}, reg : {-1}]
     \cup [op : {"new"}, k : {k}, lens : {2}, size : {1}, kind : PoseKinds, pose : {3}, reg : {6,7}]
NewOpt(k) == [op : {"newopt"}, k : {k}, opt : {1}, ii : {0,1}, ie : {None,-1,0}, reg : {-1,1}]
     \cup [op : {"newopt"}, k : {k}, opt : {2}, ii : {0}, ie : {-1,0,1}, reg : {-1}]
NewOptBad(k) == [op : {"newopt"}, k : {k}, opt : {1,2}, ii : {None,-1,2}, ie : {None,0}, reg : {-1}]
     \cup [op : {"newopt"}, k : {k}, opt : {2}, ii : {0}, ie : {None,2}, reg : {-1}]
     \cup [op : {"newopt"}, k : {k}, opt : {0}, ii : {0,None}, ie : {0}, reg : {-1}]
     \cup [op : {"newopt"}, k : {k}, opt : {1}, ii : {1}, ie : {None}, reg : {7}]
Many(k) == [op : {"many"}, k : {k}, which : 1..9]
Intr(k) == [op : {"intr"}, k : {k}, lens : GoodLens, size : {1,2,None}, opt : {0}, ii : {None}, ie : {None}]
IntrOpt(k) == [op : {"intr"}, k : {k}, lens : {2,3}, size : {1,None}, opt : {1,2}, ii : {0,1}, ie : {None,-1,0}]
IntrBad(k) == [op : {"intr"}, k : {k}, lens : BadLens \cup {2}, size : {None,3,4}, opt : {0,1}, ii : {None}, ie : {None}]
     \cup [op : {"intr"}, k : {k}, lens : {2,None}, size : {None,1}, opt : {0,1}, ii : {0,-1,None}, ie : {0,None}]
IntrFails(k) == [op : {"intr"}, k : {k}, lens : {1,2,3}, size : {1,2,None}, opt : {2}, ii : {0}, ie : {None}]
PoseOps(k) == [op : {"pose"}, k : {k}, kind : PoseKinds, pose : Poses]
PoseBad(k) == [op : {"pose"}, k : {k}, kind : {"rt_cam_ref","rt_ref_cam","Rt_ref_cam","Rt_cam_ref"}, pose : {-1}]
RegOps(k) == [op : {"reg"}, k : {k}, reg : GoodReg] 
RegBad(k) == [op : {"reg"}, k : {k}, reg : BadReg]
Resets(k) == [op : {"resetreg","resetopt"}, k : {k}]
NotSet(k) == [op : {"sizeset","optset"}, k : {k}]
Copies(k) == [op : {"copy"}, k : {k}, from : {3-k}]
Files(k) == [op : {"file"}, k : {k}, from : {1,2}, via : {"path","file","str","note","repr"}]
Groups(k) == << <<"any",SetToSeq(New(k))>>, <<"any",SetToSeq(NewOpt(k))>>, <<"any",SetToSeq(NewBad(k) \cup NewOptBad(k) \cup Many(k))>>,
   <<"live",SetToSeq(Intr(k))>>, <<"live",SetToSeq(IntrOpt(k))>>, <<"live",SetToSeq(IntrOpt(k))>>, <<"live",SetToSeq(IntrBad(k))>>, <<"live",SetToSeq(IntrFails(k))>>, 
   <<"live",SetToSeq(PoseOps(k))>>, <<"live",SetToSeq(PoseBad(k))>>, <<"live",SetToSeq(RegOps(k))>>, <<"live",SetToSeq(RegBad(k))>>,
   <<"live",SetToSeq(Resets(k))>>, <<"live",SetToSeq(NotSet(k))>>,
   <<"other",SetToSeq(Copies(k))>>, <<"other",SetToSeq(Copies(k))>>, <<"other",SetToSeq(Files(k))>>, <<"other",SetToSeq(Files(k))>> >>
AllGroups == Groups(1) \o Groups(2)
NGroups == Len(AllGroups)
AllOps == UNION {{AllGroups[g][2][i] : i \in DOMAIN AllGroups[g][2]} : g \in 1..NGroups}
Applicable(ms,o) ==
  CASE o.op \in {"new","newopt","many"} -> TRUE
    [] o.op = "copy" -> ms[o.from] # <<>>
    [] o.op = "file" -> ms[o.from] # <<>> /\ (o.via = "repr" => ms[o.from][1].opt = 0)      \* repr() does not have the optimization inputs
    [] OTHER -> ms[o.k] # <<>>
RECURSIVE Run(_,_)
Run(ms,ops) == IF ops = <<>> THEN ms ELSE Run(Apply(ms,ops[1]).m,Tail(ops))
Moved(m) == IF m.opt = 0 THEN 0 ELSE IF m.pose = OptPose(m.opt,m.ie) THEN 0 ELSE 1
=============================================================================
