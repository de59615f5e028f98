------------------------------- MODULE JFuse --------------------------------
(* Judges recorded sessions of the real mount daemon. *)
EXTENDS XFuse, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, known, succ

Img == Trace[st].img
Fail(c, name) == IF c THEN {} ELSE {name}

Verdict(e) ==
  CASE e.op = "start"   -> Fail(e.up, "C17_mount") \cup Fail(e.up, "C18_mount")
    [] e.op = "dead"    -> {"C17_alive", "C18_alive"}
    [] e.op = "lookup"  -> Fail(LookupOk(Img, known, e), "C17_lookup")
    [] e.op = "getattr" -> Fail(GetattrOk(Img, known, e), "C17_getattr")
    [] e.op = "readdir" -> Fail(ReaddirOk(Img, known, succ, e), "C17_readdir")
    [] e.op = "read"    -> Fail(ReadOkF(Img, known, e), "C18_read")
    [] e.op = "open"    -> Fail(OpenOk(e), "C18_open")
    [] OTHER -> {}

JInit == i = 0 /\ st = 0 /\ known = {} /\ succ = <<>>
JNext ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i + 1]
     IN  /\ LET V == Verdict(e) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
         /\ IF e.op = "start" THEN st' = i + 1 /\ known' = {} /\ succ' = <<>>
            ELSE /\ st' = st
                 /\ IF e.op = "lookup" THEN known' = AfterLookup(Img, known, e) /\ succ' = succ
                    ELSE IF e.op = "readdir"
                    THEN LET a == AfterReaddir(Img, known, succ, e) IN known' = a[1] /\ succ' = a[2]
                    ELSE known' = known /\ succ' = succ
=============================================================================
