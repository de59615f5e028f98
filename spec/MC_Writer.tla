------------------------------ MODULE MC_Writer -----------------------------
(***************************************************************************)
(* The writer against the soundness of layouts: entries are added to the   *)
(* listings of a small tree one after the other, in every order; whatever  *)
(* has been listed so far is written, and the image has to be sound, hold  *)
(* exactly that tree, and answer lookups by search as by meaning.  Start:  *)
(* directories which already hold entries filling a sector almost.         *)
(* The listings are printed and replayed into the real packer.             *)
(***************************************************************************)
EXTENDS XWriter, XLook, Json

CONSTANTS Adds, Emit, Menu
VARIABLES src, left

Long(c, n) == [k \in 1..n |-> IF k = 1 THEN c ELSE 110]
File(c, n, sz) == [n |-> Long(c, n), d |-> FALSE, sz |-> sz, h |-> ""]
Dir(c, n) == [n |-> Long(c, n), d |-> TRUE, sz |-> <<0, 0>>, h |-> ""]

\* listings that leave 272, 144, 20, 16, 4 or 0 bytes of the (last) sector free, if laid out as they come
Fill(lens) == [k \in 1..Len(lens) |-> File(96 + 2 * k, lens[k], <<0, k % 3>>)]
Starts == { <<>>,
            Fill(<<255, 255, 255, 255, 255, 255, 130>>),           \* 1776
            Fill(<<255, 255, 255, 255, 255, 255, 255, 114>>),      \* 2032
            Fill(<<255, 255, 255, 255, 255, 255, 255, 126>>),      \* 2044
            Fill(<<255, 255, 255, 255, 255, 255, 255, 130>>),      \* 2048
            Fill(<<130, 255, 255, 255, 255, 255, 255, 255>>),
            Fill(<<255, 255, 255, 255, 255, 255, 255, 110>>),      \* 2028
            Fill([k \in 1..14 |-> 255]) }                           \* twice 1904

\* what may be added: first letter (odd ones fall between the present entries), length, kind, size
Small == { File(97, 1, <<0, 0>>), File(97, 2, <<0, 2048>>), File(101, 255, <<0, 1>>), File(105, 6, <<0, 2049>>), Dir(111, 1), Dir(99, 120) }
Large == Small \cup { File(107, 3, <<1, 0>>), File(113, 254, <<0, 0>>), Dir(65, 255), File(90, 128, <<0, 4096>>) }

DirsOf == {src[k].p : k \in 1..Len(src)}
At(p) == CHOOSE k \in 1..Len(src) : src[k].p = p

Init == /\ left = Adds
        /\ \E s \in Starts : src = << [p |-> <<>>, l |-> s] >>

Add(k, e) ==
  LET p == Append(src[k].p, e.n)
      with == [src EXCEPT ![k].l = Append(@, e)]
  IN  /\ \A j \in 1..Len(src[k].l) : ~SameName(src[k].l[j].n, e.n)
      /\ ~e.d \/ Len(src[k].p) < 2
      /\ src' = IF e.d THEN Append(with, [p |-> p, l |-> <<>>]) ELSE with
      /\ left' = left - 1
      /\ ~Emit \/ PrintT("SCEN " \o ToJson(src'))

Next == left > 0 /\ \E k \in 1..Len(src) : \E e \in Menu : Add(k, e)
Spec == Init /\ [][Next]_<<src, left>>

Sound(img) ==
  LET T == img.tabs
  IN  /\ \A k \in 1..Len(T) : NoStraddle(T[k]) /\ SlotsInside(T[k]) /\ SlotsDisjoint(T[k])
      /\ ExtentsDisjoint(img) /\ InBounds(img) /\ Padded(img)
Search(img) ==
  LET T == img.tabs IN \A k \in 1..Len(T) : Ordered(T[k]) /\ Balanced(T[k])
Same(img) == TreeOf(img) = EncTree(SourceTree(src)) /\ SlotCount(img) = Cardinality(SourceTree(src))

\* an entry names its table by the table's position and length
Names(img) ==
  LET T == img.tabs
  IN  \A k \in 1..Len(T) : \A j \in 1..Len(T[k].slots) :
         IsDirSlot(T[k].slots[j]) =>
            LET m == CHOOSE x \in 1..Len(T) : T[x].p = Append(T[k].p, T[k].slots[j].n)
            IN  T[m].sec = T[k].slots[j].sec /\ <<0, T[m].size>> = T[k].slots[j].sz

\* going left or right by comparison ends at the entry
RECURSIVE Seek(_, _, _)
Seek(t, j, n) ==
  IF j = 0 THEN 0
  ELSE CASE Cmp(n, Decode(t.slots[j].n)) = -1 -> Seek(t, t.slots[j].l, n)
         [] Cmp(n, Decode(t.slots[j].n)) = 1  -> Seek(t, t.slots[j].r, n)
         [] OTHER -> j
Found(img) ==
  LET T == img.tabs
  IN  \A k \in 1..Len(T) : \A e \in Menu :
         Find(img, k, <<e.n>>) = LET j == IF Len(T[k].slots) = 0 THEN 0 ELSE Seek(T[k], 1, e.n)
                                 IN  IF j = 0 THEN {} ELSE {<<k, j>>}

Right ==
  LET img == ImageOf(src)
  IN  /\ Sound(img) \/ (PrintT("unsound") /\ FALSE)
      /\ Search(img) \/ (PrintT("unordered") /\ FALSE)
      /\ Same(img) \/ (PrintT("not the tree") /\ FALSE)
      /\ Names(img) \/ (PrintT("wrong table named") /\ FALSE)
      /\ Found(img) \/ (PrintT("not found") /\ FALSE)
=============================================================================
