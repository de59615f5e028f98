------------------------------- MODULE JFault -------------------------------
(***************************************************************************)
(* Judges packing runs with a fault or an interruption.                    *)
(*  kind "fault": one operation failed (hit) or would have (not hit);      *)
(*    res: the result reported                                             *)
(*  kind "soft": an operation did less than it could (short, end of file); *)
(*    success is fine if everything arrived                                *)
(*  kind "crash": the process stopped                                      *)
(*  want: the source, Seq of nodes [p, d, sz, h]; acc: the output is       *)
(*  accepted as a volume; got: what is read from it; whole: reading it     *)
(*  completely works.                                                      *)
(***************************************************************************)
EXTENDS XTree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
Nodes(s) == {[p |-> s[k].p, d |-> s[k].d, sz |-> s[k].sz, h |-> s[k].h] : k \in 1..Len(s)}
Intact(e) == e.whole /\ Nodes(e.got) = Nodes(e.want)
Verdict(e) ==
  IF e.kind = "crash"
  THEN Fail(e.acc => Intact(e), "C12_crash_accepted")
  ELSE Fail(e.res \in {"ok", "err"}, "C12_panic")
       \cup Fail((e.kind = "fault" /\ e.hit) => e.res # "ok", "C12_reported")
       \cup Fail((e.kind = "fault" /\ ~e.hit) => e.res = "ok", "C12_nothing_failed")
       \cup Fail(e.res = "ok" => e.acc /\ Intact(e), "C12_success_complete")
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
