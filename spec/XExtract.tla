------------------------------ MODULE XExtract ------------------------------
(***************************************************************************)
(* Extraction: entries of an image become files of the host below an       *)
(* output directory.  The host follows path components, so a stored name   *)
(* may lead elsewhere; those names must be refused.  Where is the machine  *)
(* that does it entry by entry (any order in which a directory comes       *)
(* before what it holds), with a crash possible at every point.            *)
(*                                                                         *)
(* Names are code point sequences.  A host path is a sequence of           *)
(* components below the file system root.                                  *)
(***************************************************************************)
EXTENDS XTree

Slash == 47
Dot == <<46>>
DotDot == <<46, 46>>

\* the components a host sees in a name
RECURSIVE SplitFrom(_, _, _)
SplitFrom(n, i, cur) ==
  IF i > Len(n) THEN <<cur>>
  ELSE IF n[i] = Slash THEN <<cur>> \o SplitFrom(n, i + 1, <<>>)
  ELSE SplitFrom(n, i + 1, Append(cur, n[i]))
Split(n) == SelectSeq(SplitFrom(n, 1, <<>>), LAMBDA c : c # <<>>)
Absolute(n) == Len(n) > 0 /\ n[1] = Slash

RECURSIVE Go(_, _)
Go(at, comps) ==
  IF comps = <<>> THEN at
  ELSE LET c == Head(comps)
           next == IF c = Dot THEN at
                   ELSE IF c = DotDot THEN SubSeq(at, 1, IF Len(at) = 0 THEN 0 ELSE Len(at) - 1)
                   ELSE Append(at, c)
       IN  Go(next, Tail(comps))

\* where the host puts name n in directory dir
Resolve(dir, n) == Go(IF Absolute(n) THEN <<>> ELSE dir, Split(n))

\* names that do not lead to an entry of their own in the directory
Unsafe(n) == n = Dot \/ n = DotDot \/ \E i \in 1..Len(n) : n[i] = Slash

Under(dir, p) == Len(p) >= Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir

\* the part of tree T below sel, relative to it
Below(T, sel) ==
  LET k == Len(sel)
      S == {n \in T : Len(n.p) > k /\ FoldPath(SubSeq(n.p, 1, k)) = FoldPath(sel)}
  IN  {[p |-> SubSeq(n.p, k + 1, Len(n.p)), d |-> n.d, sz |-> n.sz, h |-> n.h] : n \in S}

\* the host below the output directory afterwards: what was there stays unless replaced
Expected(pre, new) == new \cup {m \in pre : ~\E n \in new : n.p = m.p}
=============================================================================
