------------------------------ MODULE JDamage -------------------------------
(***************************************************************************)
(* Judges what readers answered about damaged images.  An event is         *)
(*   [who: "lib", "cli" or "daemon", im, ops, jobs]                        *)
(* and a job [bad, cut, how, rs] a damage and the answer to each question  *)
(* in ops, "-" for those not asked.                                        *)
(***************************************************************************)
EXTENDS XDamage, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
ToSet(s) == {s[k] : k \in 1..Len(s)}

JobOk(e, j) ==
  /\ Len(j.rs) = Len(e.ops)
  /\ LET d == [bad |-> ToSet(j.bad), cut |-> j.cut] IN
     \A k \in 1..Len(j.rs) : j.rs[k] = "-" \/ Right(e.im, d, j.how, e.ops[k], j.rs[k])
Verdict(e) == IF \A k \in 1..Len(e.jobs) : JobOk(e, e.jobs[k]) THEN {} ELSE {"C22_" \o e.who}

JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
