------------------------------ MODULE ModelFile -----------------------------
(* The contents of a .cameramodel file: a list of key-value entries, in a layout. What
   the python reader and the C reader make of it. Values are indices of concrete ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* v of the entries:
   lensmodel (and distortion_model, lens_model): 1..5 the known lenses, 6 no such lens, 7 lens 2 in its old name DISTORTION_...
   intrinsics: 10*l+1: those of lens l; +2: one too few; +3 one too many; +4 one is a string, +5 one is nan
   rt_cam_ref, extrinsics: 0..3 the poses; 5: pose 1 up to 1e-12; 6: pose 1 but for 1e-6; 7: five values; 8: a string inside
   imagersize: 1,2; 3: one value; 4: 0 in x; 5: 0 in y; 6: negative; 7: not integer; 8: three values
   valid_intrinsics_region: 0 empty, 1, 2, 4: closed
   optimization_inputs: 1,2; 3: not bytes    icam_intrinsics, icam_extrinsics: an integer; 9: not an integer
   other: 1.. values of any type *)
E(k,v) == [k |-> k, v |-> v]
Idx(es,k) == {i \in DOMAIN es : es[i].k = k}
HasK(es,k) == Idx(es,k) # {}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Last(es,k) == es[Max(Idx(es,k))].v
Lens(v) == IF v = 7 THEN 2 ELSE v
Fits(l,v) == v % 10 = 1 /\ (v \div 10 = l \/ {v \div 10,l} = {2,3})          \* lenses 2 and 3 are the same model with other parameters
PoseIs(v) == IF v = 5 \/ v = 6 THEN 1 ELSE v
GoodPose(v) == v \in 0..3 \cup {5,6}
SamePose(a,b) == GoodPose(a) /\ GoodPose(b) /\ (a = b \/ {a,b} = {1,5})
GoodSize(v) == v \in 1..2
Rej == [ok |-> FALSE]

(* a python dict: the last of equal keys counts. The old names of the keys are used if the new ones are missing *)
PyLens(es) == IF HasK(es,"lensmodel") THEN <<Last(es,"lensmodel")>> ELSE IF HasK(es,"distortion_model") THEN <<Last(es,"distortion_model")>>
              ELSE IF HasK(es,"lens_model") THEN <<Last(es,"lens_model")>> ELSE <<>>
PyPose(es) == IF HasK(es,"rt_cam_ref") THEN
                 (IF HasK(es,"extrinsics") /\ ~SamePose(Last(es,"rt_cam_ref"),Last(es,"extrinsics")) THEN <<>> ELSE <<Last(es,"rt_cam_ref")>>)
              ELSE IF HasK(es,"extrinsics") THEN <<Last(es,"extrinsics")>> ELSE <<>>
PyIcam(es) == IF HasK(es,"icam_intrinsics") THEN <<Last(es,"icam_intrinsics")>>
              ELSE IF HasK(es,"icam_intrinsics_optimization_inputs") THEN <<Last(es,"icam_intrinsics_optimization_inputs")>> ELSE <<>>
Python(es) ==
  LET l == PyLens(es)  p == PyPose(es)  c == PyIcam(es)
      opt == HasK(es,"optimization_inputs")
      good == /\ l # <<>> /\ Lens(l[1]) \in 1..5
              /\ HasK(es,"intrinsics") /\ Fits(Lens(l[1]),Last(es,"intrinsics"))
              /\ ~(\E i \in DOMAIN es : es[i].k = "intrinsics" /\ es[i].v % 10 = 5)      \* not a literal, even if overridden
              /\ p # <<>> /\ GoodPose(p[1])
              /\ HasK(es,"imagersize") /\ GoodSize(Last(es,"imagersize"))
              /\ IF opt THEN /\ Last(es,"optimization_inputs") \in 1..2
                             /\ c # <<>> /\ c[1] >= 0 /\ c[1] # 9
                             /\ (HasK(es,"icam_extrinsics") => Last(es,"icam_extrinsics") # 9)
                 ELSE c = <<>> /\ ~HasK(es,"icam_extrinsics")
  IN IF ~good THEN Rej ELSE
     [ok |-> TRUE, lens |-> Last(es,"intrinsics") \div 10, pose |-> PoseIs(p[1]), size |-> Last(es,"imagersize"),
      reg |-> IF HasK(es,"valid_intrinsics_region") THEN Last(es,"valid_intrinsics_region") ELSE -1,
      opt |-> IF opt THEN Last(es,"optimization_inputs") ELSE 0,
      ii |-> IF opt THEN c[1] ELSE -9, ie |-> IF opt /\ HasK(es,"icam_extrinsics") THEN Last(es,"icam_extrinsics") ELSE -9]

(* the C reader: one pass. State: lens, whether the intrinsics were seen, pose, imagersize (0: not seen) *)
RECURSIVE CRun(_,_,_)
CStep(st,e) ==
  CASE e.k = "lensmodel" -> IF st.lens # 0 \/ e.v \notin 1..5 THEN Rej ELSE [st EXCEPT !.lens = e.v]
    [] e.k = "intrinsics" -> IF st.intr \/ st.lens = 0 THEN Rej ELSE IF ~Fits(st.lens,e.v) THEN Rej ELSE [st EXCEPT !.intr = TRUE, !.lens = e.v \div 10]
    [] e.k \in {"rt_cam_ref","extrinsics"} -> IF ~GoodPose(e.v) THEN Rej
                ELSE IF st.pose = <<>> THEN [st EXCEPT !.pose = <<e.v>>]
                ELSE IF SamePose(st.pose[1],e.v) THEN st ELSE Rej
    [] e.k = "imagersize" -> IF e.v \in {3,6,7,8} \/ st.size # 0 THEN Rej ELSE IF e.v = 4 THEN st ELSE [st EXCEPT !.size = e.v]
    [] OTHER -> st
CRun(st,es,i) == IF ~st.ok THEN Rej ELSE IF i > Len(es) THEN st ELSE CRun(CStep(st,es[i]),es,i+1)
C(es) == LET st == CRun([ok |-> TRUE, lens |-> 0, intr |-> FALSE, pose |-> <<>>, size |-> 0],es,1) IN
  IF ~st.ok THEN Rej ELSE
  IF st.lens # 0 /\ st.intr /\ st.pose # <<>> /\ st.size \in {1,2} THEN [ok |-> TRUE, lens |-> st.lens, pose |-> PoseIs(st.pose[1]), size |-> st.size] ELSE Rej
(* the number of intrinsics that a buffer must be able to hold; 0 if this isn't the reason of the rejection *)
NParams == <<4,8,8,12,44>>
RECURSIVE NeedsAt(_,_,_)
NeedsAt(st,es,i) == IF i > Len(es) \/ ~st.ok THEN 0
   ELSE IF es[i].k = "intrinsics" /\ ~st.intr /\ st.lens # 0 THEN NParams[st.lens] ELSE NeedsAt(CStep(st,es[i]),es,i+1)
Needs(es) == NeedsAt([ok |-> TRUE, lens |-> 0, intr |-> FALSE, pose |-> <<>>, size |-> 0],es,1)

(* layouts of the text. The broken ones: no closing brace, something after it, no comma, unbalanced brackets *)
GoodLayouts == {"plain","oneline","comments","parens","doublequotes","nocomma","crlf","page","page2","exponents"}
BadLayouts == {"noclose","garbage","missingcomma","noopen","empty","noclosebracket"}
=============================================================================
