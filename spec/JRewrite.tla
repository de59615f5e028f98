------------------------------ MODULE JRewrite ------------------------------
(***************************************************************************)
(* Judges the files left by a rewrite run, whether it ended or was cut     *)
(* short.  imgs: per image given, in order,                                *)
(*   [orig: the original parsed, valid: it is a readable image,            *)
(*    name, old: the original's bytes are there in full under that name,   *)
(*    gone: nothing is left under the .old name,                           *)
(*    out: what is at the destination, parsed, again: the image is listed  *)
(*    more than once, outs: then also what is at its other places]         *)
(* delete; res: ok | err | killed | ...; others: bystanders untouched.     *)
(***************************************************************************)
EXTENDS XLayout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
Whole(m) == m.bad = "" /\ \A n \in TreeOf(m) : n.h # "TRUNCATED"
SameTree(x, o) == Whole(o) /\ TreeOf(o) = TreeOf(x.orig) /\ SlotCount(o) = SlotCount(x.orig)
Rewritten(x) == SameTree(x, x.out)
\* an image that is rewritten a second time is meanwhile at one of its other places
Kept(x) == Rewritten(x) \/ \E k \in 1..Len(x.outs) : SameTree(x, x.outs[k])
Verdict(e) ==
  Fail(\A k \in 1..Len(e.imgs) : e.imgs[k].name \/ e.imgs[k].old \/ (e.delete /\ Kept(e.imgs[k])), "C13_lost")
  \cup Fail(e.res = "ok" => \A k \in 1..Len(e.imgs) : Rewritten(e.imgs[k]), "C13_rewritten")
  \cup Fail(e.res = "ok" /\ ~e.delete => \A k \in 1..Len(e.imgs) : e.imgs[k].old, "C13_old_kept")
  \cup Fail(e.res = "ok" /\ e.delete => \A k \in 1..Len(e.imgs) : e.imgs[k].gone, "C13_old_deleted")
  \cup Fail(e.others, "C13_bystanders")
  \cup Fail(e.fault = "none" /\ (\A k \in 1..Len(e.imgs) : e.imgs[k].valid) => e.res = "ok", "C13_accepted")
  \cup Fail(e.res \in {"ok", "err", "killed"}, "C13_panic")
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
