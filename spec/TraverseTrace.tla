---------------------------- MODULE TraverseTrace ----------------------------
EXTENDS Traverse, Judge
V(r) == LET o == r.o  c == r.c.c  m == r.c.m  w == Replay(m,Start(m),o.calls)
            stop == c.cb \in {"false","raise"} /\ Len(o.calls) > c.k
            full == w.ok /\ Steps(m,w.s) = {} IN
  IF Has(o,"crash") THEN {"crash"}
  ELSE IF c.fault # "" THEN Bad("bad_call_accepted",o.ok = 0 /\ o.calls = <<>>)
  ELSE Bad("link_that_is_not_the_best", w.ok)
  \cup Bad("sensor_not_visited", (w.ok /\ ~stop) => full)
  \cup Bad("failed", ~stop => o.ok = 1 /\ (c.impl = "c" => o.truth = 1))
  \cup Bad("failing_callback_ignored", stop => o.ok = 0 /\ Len(o.calls) = c.k+1 /\ (c.cb = "raise" => o.mine = 1))
  \cup Bad("arguments_modified", o.same = 1)
TJudge == Report(V(Recs[pos]))
=============================================================================
