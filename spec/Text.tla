-------------------------------- MODULE Text --------------------------------
(* Strings: characters, digits, file-name patterns, and the number in a name. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s,i) == SubSeq(s,i,i)
DigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
IsDigit(c) == c \in DOMAIN DigitVal
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0 ELSE 10*NatOf(SubSeq(s,1,Len(s)-1)) + DigitVal[Ch(s,Len(s))]
StartsWith(s,p) == Len(p) <= Len(s) /\ SubSeq(s,1,Len(p)) = p
EndsWith(s,p) == Len(p) <= Len(s) /\ SubSeq(s,Len(s)-Len(p)+1,Len(s)) = p
Tail0(s,n) == SubSeq(s,n+1,Len(s))
(* pattern: the literal pieces between the "*" *)
RECURSIVE MatchFrom(_,_)
MatchFrom(s,segs) ==    \* a "*" comes before segs[1]
  IF Len(segs) = 1 THEN EndsWith(s,segs[1])
  ELSE \E i \in 0..Len(s) : StartsWith(Tail0(s,i),segs[1]) /\ MatchFrom(Tail0(s,i+Len(segs[1])),Tail(segs))
Matches(s,segs) == IF Len(segs) = 1 THEN s = segs[1] ELSE StartsWith(s,segs[1]) /\ MatchFrom(Tail0(s,Len(segs[1])),Tail(segs))
RECURSIVE Glob(_)
Glob(segs) == IF Len(segs) = 1 THEN segs[1] ELSE segs[1] \o "*" \o Glob(Tail(segs))
(* maximal runs of digits: <<first,last>> *)
Runs(s) == {r \in (1..Len(s)) \X (1..Len(s)) : /\ r[1] <= r[2]
              /\ \A i \in r[1]..r[2] : IsDigit(Ch(s,i))
              /\ (r[1] = 1 \/ ~IsDigit(Ch(s,r[1]-1)))
              /\ (r[2] = Len(s) \/ ~IsDigit(Ch(s,r[2]+1)))}
(* The names of one camera: what precedes the frame number and what follows it are common to all of them *)
Fits(names,pre,post) == \A n \in names : /\ StartsWith(n,pre) /\ EndsWith(n,post) /\ Len(n) > Len(pre)+Len(post)
                                        /\ \A i \in (Len(pre)+1)..(Len(n)-Len(post)) : IsDigit(Ch(n,i))
Frames(names) == LET f == CHOOSE n \in names : \A m \in names : Len(n) <= Len(m)
                 IN {p \in {<<SubSeq(f,1,r[1]-1),Tail0(f,r[2])>> : r \in Runs(f)} : Fits(names,p[1],p[2])}
FrameNo(n,p) == NatOf(SubSeq(n,Len(p[1])+1,Len(n)-Len(p[2])))
(* files: per camera, the sequence of names. The map from a name to <<frame number, camera>>, or no answer *)
Range(s) == {s[i] : i \in DOMAIN s}
CamOk(s) == Len(s) = 1 \/ Frames(Range(s)) # {}
CamNo(s,i) == IF Len(s) = 1 THEN 0 ELSE FrameNo(s[i],CHOOSE p \in Frames(Range(s)) : TRUE)
Mappable(files) == (\A c \in DOMAIN files : Len(files[c]) > 0) /\ (Len(files) = 1 \/ \A c \in DOMAIN files : CamOk(files[c]))
Number(files,c,i) == IF CamOk(files[c]) THEN CamNo(files[c],i) ELSE i-1
Mapping(files) == UNION {{<<files[c][i],Number(files,c,i),c-1>> : i \in DOMAIN files[c]} : c \in DOMAIN files}
AllDistinct(files) == Cardinality(UNION {Range(files[c]) : c \in DOMAIN files}) = LET RECURSIVE S(_)
                                                                                     S(c) == IF c = 0 THEN 0 ELSE Len(files[c]) + S(c-1)
                                                                                 IN S(Len(files))
=============================================================================
