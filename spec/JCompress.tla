----------------------------- MODULE JCompress ------------------------------
(***************************************************************************)
(* Judges compression.  pres, cres: results of packing and of compressing  *)
(* the same source; plain: the packed image; img: the decompressed one,    *)
(* parsed; n: its number of sectors; diffs: sectors where the two differ;  *)
(* cont: what an independent decoder thinks of the container ("" is fine); *)
(* cmds: reading commands on both, [c, a, b: results, same: outputs agree] *)
(***************************************************************************)
EXTENDS XLayout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
Verdict(e) ==
  Fail(e.cres \in {"ok", "err"}, "C10_panic")
  \cup Fail(e.pres = e.cres, "C10_result")
  \cup (IF e.pres = "ok" /\ e.cres = "ok"
        THEN Fail(e.cont = "", "C10_container")
             \cup Fail(e.cont = "" => e.n = e.plain.len[1] /\ e.plain.len[2] = 0, "C10_length")
             \cup Fail(e.diffs = <<>>, "C10_bytes")
             \cup Fail(e.cont = "" => TreeOf(e.img) = TreeOf(e.plain), "C10_tree")
             \cup Fail(\A k \in 1..Len(e.cmds) : e.cmds[k].a = e.cmds[k].b /\ e.cmds[k].same, "C10_commands")
        ELSE {})
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
