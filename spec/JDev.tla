-------------------------------- MODULE JDev --------------------------------
(***************************************************************************)
(* Judges block devices.                                                   *)
(*  kind "ops":     a device, operations on it and their results, and what *)
(*                  it holds in the end                                    *)
(*  kind "sectors": the same for the sector-addressed device               *)
(*  kind "images":  one source packed to several devices by both builds    *)
(***************************************************************************)
EXTENDS XDev, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}

RECURSIVE Run(_, _, _)
Run(e, dev, k) ==
  IF k > Len(e.ops)
  THEN Fail(~e.hasend \/ \A w \in 1..Len(dev.base) : Exists(dev, w) => e.end[w] = dev.win[w], "C20_content")
       \cup Fail(~e.hasend \/ e.endlen = dev.len, "C20_content_length")
  ELSE LET op == e.ops[k]
           r == e.results[k]
           step == CASE op.k = "w" -> IF MayWrite(dev, op.w, op.o, op.n)
                                      THEN [dev |-> Written(dev, op.w, op.o, op.n, op.b), bad |-> Fail(r.res = "ok" \/ (op.n = 0 /\ r.res = "err"), "C20_write")]
                                      ELSE [dev |-> dev, bad |-> Fail(r.res = "err" \/ (op.n = 0 /\ r.res = "ok"), "C20_bounds_write")]
                     [] op.k = "r" -> IF MayRead(dev, op.w, op.o, op.n)
                                      THEN [dev |-> dev, bad |-> Fail((r.res = "ok" /\ r.data = Held(dev, op.w, op.o, op.n)) \/ (op.n = 0 /\ r.res = "err"), "C20_read")]
                                      ELSE [dev |-> dev, bad |-> Fail(r.res = "err" \/ (op.n = 0 /\ r.res = "ok"), "C20_bounds_read")]
                     [] op.k = "l" -> [dev |-> dev, bad |-> Fail(r.res = "ok" /\ r.len = dev.len, "C20_length")]
       IN  step.bad \cup Run(e, step.dev, k + 1)

\* sector device: s -> <<byte, count>>, the rest of the sector is zero
SecLen(d) == IF DOMAIN d = {} THEN 0 ELSE 1 + CHOOSE s \in DOMAIN d : \A t \in DOMAIN d : t <= s
RECURSIVE RunSec(_, _, _)
RunSec(e, d, k) ==
  IF k > Len(e.ops) THEN {}
  ELSE LET op == e.ops[k]
           r == e.results[k]
           full == op.n \div 2048
           new == op.s..(op.s + (op.n + 2047) \div 2048 - 1)
       IN  CASE op.k = "w" -> Fail(r.res = "ok", "C20_sector_write")
                              \cup RunSec(e, [s \in DOMAIN d \cup new |-> IF s \notin new THEN d[s] ELSE IF s < op.s + full THEN <<op.b, 2048>> ELSE <<op.b, op.n % 2048>>], k + 1)
             [] op.k = "r" -> Fail(r.res = "ok" /\ r.sec = (IF op.s \in DOMAIN d THEN d[op.s] ELSE <<0, 2048>>), "C20_sector_read") \cup RunSec(e, d, k + 1)
             [] op.k = "l" -> Fail(r.res = "ok" /\ r.secs = SecLen(d), "C20_sector_length") \cup RunSec(e, d, k + 1)

Images(e) ==
  LET R == {k \in 1..Len(e.runs) : ~e.runs[k].small}
      G == {k \in R : ~e.runs[k].fixed}
  IN  Fail(\A k \in R : e.runs[k].res = "ok", "C20_packs")
      \cup Fail(\A k, j \in {m \in R : e.runs[m].res = "ok"} : e.runs[k].hz = e.runs[j].hz, "C20_same_bytes")
      \cup Fail(\A k, j \in {m \in G : e.runs[m].res = "ok"} : e.runs[k].len = e.runs[j].len, "C20_same_length")
      \cup Fail(\A k \in 1..Len(e.runs) : e.runs[k].small => e.runs[k].res = "err", "C20_too_small")

Verdict(e) == CASE e.kind = "ops" -> Run(e, e.dev, 1)
                [] e.kind = "sectors" -> RunSec(e, << >>, 1)
                [] e.kind = "images" -> Images(e)
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
