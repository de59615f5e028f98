------------------------------ MODULE JVolume -------------------------------
(***************************************************************************)
(* Judges how the library, the command line tool and the daemon treat an   *)
(* image.  Answers: 1..4 the partition whose contents were shown, 0 a      *)
(* proper rejection, -1 anything else (wrong contents, success without     *)
(* contents, crash), -2 not asked.                                         *)
(***************************************************************************)
EXTENDS XVolume, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
Asked(x, w) == x = -2 \/ x = w
Verdict(e) ==
  LET w == Chosen(e.cand)
      raw == IF e.cand[1] = "full" THEN 1 ELSE 0
  IN  Fail(Asked(e.lib, w), "C06_library")
      \cup Fail(Asked(e.raw, raw), "C06_read_volume")
      \cup Fail(Asked(e.off, w), "C06_offset")
      \cup Fail(\A k \in 1..Len(e.cli) : e.cli[k].ans = w, "C06_cli")
      \cup Fail(Asked(e.fsd, w), "C06_daemon")
      \cup Fail(Asked(e.fork, w), "C06_daemon_fork")
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
