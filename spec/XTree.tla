------------------------------- MODULE XTree --------------------------------
(***************************************************************************)
(* The logical content of a volume: a finite set of nodes                  *)
(*   [p: path, d: is it a directory, sz: size as <<hi, lo>>, h: content]   *)
(* A path is a non-empty sequence of names; the root is <<>> and has no    *)
(* node.  Sizes are pairs (value = hi * 2^20 + lo) because a file may be   *)
(* larger than TLC's integers.  h identifies the bytes of a file.          *)
(***************************************************************************)
EXTENDS XNames

Mib == 1048576
SecSize == 2048

\* 4 GiB: sizes of this or more have no 32 bit representation
SizeOk(sz) == sz[1] < 4096

SectorsOf(sz) == sz[1] * 512 + (sz[2] + SecSize - 1) \div SecSize
IsZero(sz) == sz[1] = 0 /\ sz[2] = 0

Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(p)   == p[Len(p)]

Children(T, dir) == {n \in T : Len(n.p) = Len(dir) + 1 /\ Parent(n.p) = dir}
Dirs(T)  == {<<>>} \cup {n.p : n \in {m \in T : m.d}}
Files(T) == {n \in T : ~n.d}

SamePath(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameName(p[i], q[i])
FoldPath(p) == [i \in 1..Len(p) |-> Fold(p[i])]

\* a set of nodes is a tree: every parent is a directory of it
IsTree(T) == \A n \in T : Parent(n.p) \in Dirs(T)

(* What a path names.  Lookup is case-insensitive; trailing and leading    *)
(* slashes are not part of a path here.                                    *)
Named(T, q) == {n \in T : FoldPath(n.p) = FoldPath(q)}

EncPath(p) == [i \in 1..Len(p) |-> Encode(p[i])]
DecPath(p) == [i \in 1..Len(p) |-> Decode(p[i])]

=============================================================================
