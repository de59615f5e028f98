------------------------------- MODULE MC_Dev -------------------------------
(***************************************************************************)
(* A buffered file as a device: every write first seeks (which flushes),   *)
(* short data stays in the buffer.  It refines the growing device of XDev, *)
(* whatever the size of the buffer.  LenOf = "file" asks only the file for *)
(* its length, Seek = "lazy" does not flush before moving: TLC refutes     *)
(* both.                                                                   *)
(***************************************************************************)
EXTENDS XDev, TLC, Json
CONSTANTS Depth, Caps, LenOf, Seek
VARIABLES cap, file, buf, pos, dev, hist, seen
vars == <<cap, file, buf, pos, dev, hist, seen>>
K == 8
Zero(n) == [k \in 1..n |-> 0]
Over(f, p, d) == LET n == IF Len(d) > 0 /\ p + Len(d) > Len(f) THEN p + Len(d) ELSE Len(f) IN
                 [k \in 1..n |-> IF k > p /\ k <= p + Len(d) THEN d[k - p] ELSE IF k <= Len(f) THEN f[k] ELSE 0]
Init == /\ cap \in Caps /\ file = <<>> /\ buf = <<>> /\ pos = 0 /\ hist = <<>> /\ seen = <<0, 0>>
        /\ dev = [fixed |-> FALSE, len |-> <<0, 0>>, base |-> << <<0, 0>> >>, win |-> <<Zero(K)>>]
Ops == [k : {"w"}, o : {0, 1, 3}, n : {1, 2, 3}] \cup {[k |-> "l", o |-> 0, n |-> 0]}
Do(op) ==
  LET b == Len(hist) + 1
      d == [j \in 1..op.n |-> b]
      f1 == IF Seek = "flush" THEN Over(file, pos, buf) ELSE file
      keep == IF Seek = "flush" THEN <<>> ELSE buf
      p1 == op.o
  IN  /\ hist' = Append(hist, op)
      /\ IF op.k = "w"
         THEN /\ dev' = Written(dev, 1, op.o, op.n, b)
              /\ seen' = dev'.len
              \* pos: where the buffer begins in the file
              /\ IF Len(keep) + op.n > cap
                 THEN IF op.n >= cap
                      THEN file' = Over(Over(f1, p1, keep), p1 + Len(keep), d) /\ buf' = <<>> /\ pos' = p1 + Len(keep) + op.n
                      ELSE file' = Over(f1, p1, keep) /\ buf' = d /\ pos' = p1 + Len(keep)
                 ELSE file' = f1 /\ buf' = keep \o d /\ pos' = p1
         ELSE /\ UNCHANGED dev
              /\ IF LenOf = "flush" THEN file' = Over(file, pos, buf) /\ pos' = pos + Len(buf) /\ buf' = <<>>
                 ELSE UNCHANGED <<file, buf, pos>>
              /\ seen' = <<0, Len(file')>>
      /\ UNCHANGED cap
Next == Len(hist) < Depth /\ \E op \in Ops : Do(op) /\ (Len(hist') = Depth /\ LenOf = "flush" /\ Seek = "flush" =>
                                                 PrintT("SCEN " \o ToJson([cap |-> cap, ops |-> hist'])))
Spec == Init /\ [][Next]_vars
LengthRight == seen = dev.len
ContentRight == LET f == Over(file, pos, buf) IN Len(f) = dev.len[2] /\ \A k \in 1..Len(f) : f[k] = dev.win[1][k]
=============================================================================
