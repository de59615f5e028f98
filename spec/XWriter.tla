------------------------------- MODULE XWriter ------------------------------
(***************************************************************************)
(* How an image is written.  The entries of a directory arrive in any      *)
(* order and are kept in a height-balanced search tree; the tree is laid   *)
(* out parent first, an entry that would cross a sector boundary moving to *)
(* the next sector; a directory announces the length of its table, rounded *)
(* up, in the entry that names it; sectors are handed out one region after *)
(* the other.  The result is an image in the terms of XLayout.             *)
(*                                                                         *)
(* Each of the decisions which make that sound can be taken wrongly (see   *)
(* MC_Writer, MC_Avl): Rot, Align, Announce, Room.                         *)
(***************************************************************************)
EXTENDS XLayout

CONSTANTS Rot,        \* "full": rotates twice where needed; "single": never
          Align,      \* "need": moves an entry that would cross; "none"; "over": compares with the wrong end
          Announce,   \* "real": the length including moved entries; "sum": without
          Room        \* "up": sectors of a file rounded up; "down"

(* -------- the tree of a directory -------------------------------------- *)
\* a tree is <<>> or <<left, entry, right, height>>
Leaf == <<>>
Height(t) == IF t = Leaf THEN 0 ELSE t[4]
Max(a, b) == IF a > b THEN a ELSE b
Node(l, x, r) == << l, x, r, 1 + Max(Height(l), Height(r)) >>
Lean(t) == IF t = Leaf THEN 0 ELSE Height(t[3]) - Height(t[1])

RotL(t) == Node(Node(t[1], t[2], t[3][1]), t[3][2], t[3][3])
RotR(t) == Node(t[1][1], t[1][2], Node(t[1][3], t[2], t[3]))
Fix(t) ==
  IF Lean(t) > 1 THEN
     IF Lean(t[3]) < 0 /\ Rot = "full" THEN RotL(Node(t[1], t[2], RotR(t[3]))) ELSE RotL(t)
  ELSE IF Lean(t) < -1 THEN
     IF Lean(t[1]) > 0 /\ Rot = "full" THEN RotR(Node(RotL(t[1]), t[2], t[3])) ELSE RotR(t)
  ELSE t

RECURSIVE Insert(_, _)
Insert(t, e) ==
  IF t = Leaf THEN Node(Leaf, e, Leaf)
  ELSE CASE Cmp(e.n, t[2].n) = -1 -> Fix(Node(Insert(t[1], e), t[2], t[3]))
         [] Cmp(e.n, t[2].n) = 1  -> Fix(Node(t[1], t[2], Insert(t[3], e)))
         [] OTHER -> t

RECURSIVE Build(_, _)
Build(l, i) == IF i = 0 THEN Leaf ELSE Insert(Build(l, i - 1), l[i])

RECURSIVE Count(_)
Count(t) == IF t = Leaf THEN 0 ELSE Count(t[1]) + 1 + Count(t[3])

\* parent first; every node with the indices of its children
RECURSIVE Pre(_, _)
Pre(t, at) ==
  IF t = Leaf THEN <<>>
  ELSE LET nl == Count(t[1])
       IN  << [e |-> t[2], l |-> IF t[1] = Leaf THEN 0 ELSE at + 1,
               r |-> IF t[3] = Leaf THEN 0 ELSE at + 1 + nl] >>
           \o Pre(t[1], at + 1) \o Pre(t[3], at + 1 + nl)

(* -------- the table ---------------------------------------------------- *)
Skip(off, len) ==
  LET left == SecSize - (off % SecSize)
  IN  CASE Align = "none" -> 0
        [] Align = "over" -> IF off % SecSize > 0 /\ len >= left THEN left ELSE 0   \* moves entries that just fit
        [] Align = "late" -> IF off % SecSize > 0 /\ len > left + 4 THEN left ELSE 0
        [] OTHER          -> IF off % SecSize > 0 /\ len > left THEN left ELSE 0

Lens(s) == TLCEval([i \in 1..Len(s) |-> DirentLen(Len(s[i].e.n))])
RECURSIVE Offs(_, _)
Offs(ls, k) ==      \* offsets of the first k entries
  IF k = 0 THEN <<>>
  ELSE LET o == TLCEval(Offs(ls, k - 1))
           end == IF k = 1 THEN 0 ELSE o[k-1] + ls[k-1]
       IN  Append(o, end + Skip(end, ls[k]))
RECURSIVE Total(_, _)
Total(ls, k) == IF k = 0 THEN 0 ELSE Total(ls, k - 1) + ls[k]

TableLen(ls) ==
  IF Len(ls) = 0 THEN SecSize
  ELSE IF Announce = "sum" THEN Total(ls, Len(ls))
  ELSE Offs(ls, Len(ls))[Len(ls)] + ls[Len(ls)]

RoundUp(x) == ((x + SecSize - 1) \div SecSize) * SecSize

(* -------- the image ---------------------------------------------------- *)
\* src: sequence of listings, a directory before the ones below it
Sectors(sz) == IF Room = "down" THEN sz[1] * 512 + sz[2] \div SecSize ELSE SectorsOf(sz)

PreOf(src) == [k \in 1..Len(src) |-> Pre(Build(src[k].l, Len(src[k].l)), 1)]
SizeOf(pre, k) == RoundUp(TableLen(Lens(pre[k])))
IndexOf(src, p) == CHOOSE k \in 1..Len(src) : src[k].p = p

\* <<first free sector, sectors of the entries of table k, each entry in turn>>
RECURSIVE GiveEntries(_, _, _, _, _)
GiveEntries(src, pre, k, j, free) ==
  IF j = 0 THEN << free, <<>> >>
  ELSE LET g == GiveEntries(src, pre, k, j - 1, free)
           e == pre[k][j].e
           n == IF e.d THEN SizeOf(pre, IndexOf(src, Append(src[k].p, e.n))) \div SecSize ELSE Sectors(e.sz)
       IN  << g[1] + n, Append(g[2], g[1]) >>
RECURSIVE Give(_, _, _)
Give(src, pre, k) ==
  IF k = 0 THEN << VolumeSector + 1 + SizeOf(pre, 1) \div SecSize, <<>> >>
  ELSE LET g == Give(src, pre, k - 1)
           x == GiveEntries(src, pre, k, Len(pre[k]), g[1])
       IN  << x[1], Append(g[2], x[2]) >>

ImageOf(src) ==
  LET pre == TLCEval(PreOf(src))
      g   == TLCEval(Give(src, pre, Len(src)))
      off == TLCEval([k \in 1..Len(src) |-> Offs(Lens(pre[k]), Len(pre[k]))])
      SecOf(k) == IF src[k].p = <<>> THEN VolumeSector + 1
                  ELSE LET up == IndexOf(src, Parent(src[k].p))
                           j  == CHOOSE x \in 1..Len(pre[up]) : pre[up][x].e.n = Last(src[k].p)
                       IN  g[2][up][j]
      Slot(k, j) == LET e == pre[k][j].e
                    IN  [off |-> off[k][j], l |-> pre[k][j].l, r |-> pre[k][j].r, sec |-> g[2][k][j],
                         sz |-> IF e.d THEN << 0, SizeOf(pre, IndexOf(src, Append(src[k].p, e.n))) >> ELSE e.sz,
                         attr |-> IF e.d THEN 16 ELSE 32, n |-> Encode(e.n), h |-> e.h]
  IN  TLCEval([len  |-> << ((g[1] + 31) \div 32) * 32, 0 >>,
       root |-> [sec |-> VolumeSector + 1, size |-> SizeOf(pre, 1)],
       bad  |-> "",
       tabs |-> [k \in 1..Len(src) |->
                   [p |-> EncPath(src[k].p), sec |-> SecOf(k), size |-> SizeOf(pre, k), junk |-> 0,
                    slots |-> [j \in 1..Len(pre[k]) |-> Slot(k, j)]]]])
=============================================================================
