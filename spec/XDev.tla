-------------------------------- MODULE XDev --------------------------------
(***************************************************************************)
(* What a block device is: bytes at positions, and a length.  Positions    *)
(* are pairs <<MiB, rest>>.  Only the bytes in some windows are modelled:  *)
(* window w holds the bytes from position base[w] on.                      *)
(*  fixed:  cap is its length for ever; accesses must lie inside of it     *)
(*  grow:   writes extend it, gaps read as zero; reads must lie inside     *)
(* A position of TooFar MiB or more does not exist on any device.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

M == 1048576
TooFar == 268435456
Plus(a, n) == <<a[1] + (a[2] + n) \div M, (a[2] + n) % M>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Max2(a, b) == IF Leq(a, b) THEN b ELSE a

(* dev: [fixed, len, base: Seq of pairs, win: Seq of (Seq of bytes)] *)
At(dev, w, o) == Plus(dev.base[w], o)
Inside(dev, w, o, n) == Leq(At(dev, w, o + n), dev.len)
Exists(dev, w) == dev.base[w][1] < TooFar
MayWrite(dev, w, o, n) == Exists(dev, w) /\ (dev.fixed => Inside(dev, w, o, n))
Written(dev, w, o, n, b) ==
  [dev EXCEPT !.len = IF n > 0 THEN Max2(@, At(dev, w, o + n)) ELSE @,
              !.win[w] = [k \in 1..Len(@) |-> IF k > o /\ k <= o + n THEN b ELSE @[k]]]
MayRead(dev, w, o, n) == Exists(dev, w) /\ Inside(dev, w, o, n)
Held(dev, w, o, n) == SubSeq(dev.win[w], o + 1, o + n)
=============================================================================
