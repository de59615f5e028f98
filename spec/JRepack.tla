------------------------------ MODULE JRepack -------------------------------
(***************************************************************************)
(* Judges packing from an image.  src: the source image (parsed, with the  *)
(* length it really has), res: result, out: the image written, same: the   *)
(* source's bytes are what they were, via: how it was done.                *)
(***************************************************************************)
EXTENDS XLayout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}

\* <<sector, byte>> one past the data of a slot
EndOf(s) == << s.sec + s.sz[1] * 512 + s.sz[2] \div SecSize, s.sz[2] % SecSize >>
Upto(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Complete(img) ==
  \A k \in 1..Len(img.tabs) :
    LET t == img.tabs[k] IN
    \A j \in 1..Len(t.slots) :
      LET s == t.slots[j] IN IsDirSlot(s) \/ IsZero(s.sz) \/ Upto(EndOf(s), img.len)

Verdict(e) ==
  LET c == Complete(e.src)
  IN  Fail(e.res \in {"ok", "err"}, "C08_panic")
      \cup Fail(c => e.res = "ok", "C08_accept")
      \cup Fail(~c => e.res = "err", "C08_incomplete")
      \cup Fail(e.same, "C08_source_changed")
      \cup (IF e.res = "ok" /\ c
            THEN Fail(e.out.bad = "" /\ TreeOf(e.out) = TreeOf(e.src) /\ SlotCount(e.out) = SlotCount(e.src), "C08_tree")
                 \cup Fail(e.out.bad = "" => ExtentsDisjoint(e.out) /\ InBounds(e.out) /\ Padded(e.out), "C02_repacked")
                 \cup Fail(e.out.bad = "" => \A k \in 1..Len(e.out.tabs) : Ordered(e.out.tabs[k]) /\ Balanced(e.out.tabs[k]),
                           "C03_repacked")
            ELSE {})
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
