------------------------------ MODULE XLayout -------------------------------
(***************************************************************************)
(* The physical content of an image, as an independent parser sees it.     *)
(* An image is                                                             *)
(*   [len: <<sectors, rest>>, root: [sec, size], tabs: Seq of tables]      *)
(* a table is                                                              *)
(*   [p: path (names as bytes), sec, size, junk, slots: Seq of slots]      *)
(* (junk: bytes of it that no entry covers and that are not 0xFF) and a    *)
(* slot, one directory entry reachable from the first one, is              *)
(*   [off, l, r, sec, sz, attr, n: name bytes, h]                          *)
(* l and r are indices of slots in the table (0: no child).                *)
(***************************************************************************)
EXTENDS XTree, TLC

VolumeSector == 32
DirAttr == 16
HasBit(x, b) == (x \div b) % 2 = 1
IsDirSlot(s) == HasBit(s.attr, DirAttr)

SlotEnd(s) == s.off + 14 + Len(s.n)

Range(f) == {f[i] : i \in DOMAIN f}
SeqToSet(s) == {s[i] : i \in 1..Len(s)}

(* -------- tables ------------------------------------------------------- *)

\* No entry crosses a sector boundary
NoStraddle(t) == \A i \in 1..Len(t.slots) :
                    (t.slots[i].off % SecSize) + 14 + Len(t.slots[i].n) <= SecSize

SlotsInside(t) == \A i \in 1..Len(t.slots) :
                    /\ SlotEnd(t.slots[i]) <= t.size
                    /\ t.slots[i].off % 4 = 0

SlotsDisjoint(t) ==
  LET by == SortSeq(t.slots, LAMBDA a, b : a.off < b.off)
  IN  \A i \in 1..(Len(by) - 1) : SlotEnd(by[i]) <= by[i+1].off

BlankFilled(t) == t.junk = 0

\* Indices of the tree below slot i, everything left of a slot before it
RECURSIVE InOrder(_, _)
InOrder(t, i) == IF i = 0 THEN <<>>
                 ELSE InOrder(t, t.slots[i].l) \o <<i>> \o InOrder(t, t.slots[i].r)

TabOrder(t) == IF Len(t.slots) = 0 THEN <<>> ELSE InOrder(t, 1)

\* The search tree is ordered: reading it left to right is strictly increasing
Ordered(t) ==
  LET o == TabOrder(t)
  IN  \A k \in 1..(Len(o) - 1) :
         Cmp(Decode(t.slots[o[k]].n), Decode(t.slots[o[k+1]].n)) = -1

\* <<height, balanced>> in one pass
RECURSIVE Bal(_, _)
Bal(t, i) ==
  IF i = 0 THEN <<0, TRUE>>
  ELSE LET a == Bal(t, t.slots[i].l)
           b == Bal(t, t.slots[i].r)
       IN  << 1 + (IF a[1] > b[1] THEN a[1] ELSE b[1]),
              a[2] /\ b[2] /\ (a[1] - b[1]) \in {-1, 0, 1} >>
Balanced(t) == Len(t.slots) = 0 \/ Bal(t, 1)[2]

(* -------- extents ------------------------------------------------------ *)

\* <<first sector, number of sectors>> of everything the volume points to
TabExtent(t)  == << t.sec, (t.size + SecSize - 1) \div SecSize >>
SlotExtent(s) == << s.sec, SectorsOf(s.sz) >>

Extents(img) ==
  LET tabs  == [i \in 1..Len(img.tabs) |-> TabExtent(img.tabs[i])]
      files == [i \in 1..Len(img.tabs) |->
                  LET fs == SelectSeq(img.tabs[i].slots, LAMBDA s : ~IsDirSlot(s) /\ ~IsZero(s.sz))
                  IN  [j \in 1..Len(fs) |-> SlotExtent(fs[j])]]
      RECURSIVE Cat(_)
      Cat(i) == IF i = 0 THEN <<>> ELSE Cat(i-1) \o files[i]
  IN  << <<VolumeSector, 1>> >> \o tabs \o Cat(Len(files))

ExtentsDisjoint(img) ==
  LET by == SortSeq(Extents(img), LAMBDA a, b : a[1] < b[1])
  IN  \A i \in 1..(Len(by) - 1) : by[i][1] + by[i][2] <= by[i+1][1]

\* every byte of every table and file is inside of the image
InBounds(img) ==
  LET E == Extents(img) IN \A i \in 1..Len(E) : E[i][1] + E[i][2] <= img.len[1]

Padded(img) == img.len[1] % 32 = 0 /\ img.len[2] = 0

(* -------- logical tree ------------------------------------------------- *)

SlotNode(t, s) ==
  [p |-> Append(t.p, s.n), d |-> IsDirSlot(s),
   sz |-> IF IsDirSlot(s) THEN <<0, 0>> ELSE s.sz,
   h |-> IF IsDirSlot(s) THEN "" ELSE s.h]

TreeOf(img) ==
  UNION {{SlotNode(img.tabs[i], img.tabs[i].slots[j]) : j \in 1..Len(img.tabs[i].slots)}
         : i \in 1..Len(img.tabs)}

SlotCount(img) ==
  LET RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE Sum(i-1) + Len(img.tabs[i].slots)
  IN  Sum(Len(img.tabs))

EncNode(n) == [p |-> EncPath(n.p), d |-> n.d, sz |-> n.sz, h |-> n.h]
EncTree(T) == {EncNode(n) : n \in T}

(* -------- what can be stored ------------------------------------------- *)
(* A source is a sequence of listings [p: directory, l: Seq of [n, d, sz]] *)

\* A directory table can be addressed up to its 128th sector.
MaxTabSectors == 128

EntryLen(e) == DirentLen(Len(e.n))
RECURSIVE SumLen(_, _)
SumLen(l, i) == IF i = 0 THEN 0 ELSE SumLen(l, i-1) + EntryLen(l[i])
ListLen(l) == SumLen(l, Len(l))

UniformLen(l) == Len(l) > 0 /\ \A i \in 1..Len(l) : EntryLen(l[i]) = EntryLen(l[1])
\* Entries of one length: every placement needs the same number of sectors
UniformSectors(l) == LET k == SecSize \div EntryLen(l[1]) IN (Len(l) + k - 1) \div k

MaxEntry == DirentLen(255)
\* fits / does not fit whatever the order the entries are placed in
DirFits(l) == IF UniformLen(l) THEN UniformSectors(l) <= MaxTabSectors
              ELSE ListLen(l) <= MaxTabSectors * (SecSize - MaxEntry + 4)
DirTooBig(l) == IF UniformLen(l) THEN UniformSectors(l) > MaxTabSectors
                ELSE ListLen(l) > MaxTabSectors * SecSize

ListingDup(l) ==
  Cardinality({Fold(l[i].n) : i \in 1..Len(l)}) # Len(l)

ListingOk(l) ==
  /\ \A i \in 1..Len(l) : NameOk(l[i].n) /\ (l[i].d \/ SizeOk(l[i].sz))
  /\ ~ListingDup(l)
  /\ DirFits(l)
ListingBad(l) ==
  \/ \E i \in 1..Len(l) : NameBad(l[i].n) \/ (~l[i].d /\ ~SizeOk(l[i].sz))
  \/ ListingDup(l)
  \/ DirTooBig(l)

(* The whole: a sector has a number of 32 bits.  Sectors are counted in     *)
(* pieces of 512 (one MiB), of which there are 2^23.                       *)
MaxPieces == 8388608

\* <<whole MiB, sectors besides them>> of the files of a listing
RECURSIVE SumFiles(_, _)
SumFiles(l, i) ==
  IF i = 0 THEN <<0, 0>>
  ELSE LET a == SumFiles(l, i-1)
       IN  IF l[i].d THEN a
           ELSE << a[1] + l[i].sz[1], a[2] + (l[i].sz[2] + SecSize - 1) \div SecSize >>

RECURSIVE SumListings(_, _)
SumListings(src, i) ==
  IF i = 0 THEN <<0, 0, 0>>
  ELSE LET a == SumListings(src, i-1)
           b == SumFiles(src[i].l, Len(src[i].l))
       IN  << a[1] + b[1], a[2] + b[2], a[3] + Len(src[i].l) >>

\* Tables, empty files and the sectors below 32 are put somewhere, too: at most a sector for
\* an entry and one piece for a table
TotalFits(src)   == LET a == SumListings(src, Len(src))
                    IN  a[1] + (a[2] + a[3]) \div 512 + 2 + Len(src) < MaxPieces
TotalTooBig(src) == LET a == SumListings(src, Len(src))
                    IN  a[1] + a[2] \div 512 >= MaxPieces

Representable(src)   == (\A i \in 1..Len(src) : ListingOk(src[i].l)) /\ TotalFits(src)
Unrepresentable(src) == (\E i \in 1..Len(src) : ListingBad(src[i].l)) \/ TotalTooBig(src)

SourceTree(src) ==
  UNION {{[p |-> Append(src[i].p, src[i].l[j].n), d |-> src[i].l[j].d,
           sz |-> IF src[i].l[j].d THEN <<0, 0>> ELSE src[i].l[j].sz,
           h  |-> IF src[i].l[j].d THEN "" ELSE src[i].l[j].h] : j \in 1..Len(src[i].l)}
         : i \in 1..Len(src)}
=============================================================================
