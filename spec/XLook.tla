-------------------------------- MODULE XLook -------------------------------
(***************************************************************************)
(* Looking things up in the image model.                                   *)
(***************************************************************************)
EXTENDS XLayout

\* An entry as the listing operations report it; pos is absolute: <<sector, byte>>
SlotView(t, s) == [n |-> s.n, attr |-> s.attr, sec |-> s.sec, sz |-> s.sz,
                   pos |-> << t.sec + s.off \div SecSize, s.off % SecSize >>]
(* Lookup of a path (decoded names) in the raw image, name by name. *)
TabAt(img, p) == {k \in 1..Len(img.tabs) : img.tabs[k].p = p}
RECURSIVE Find(_, _, _)
\* the set of <<table, slot>> that q names, starting in table k
Find(img, k, q) ==
  LET t == img.tabs[k]
      f == Fold(Head(q))
      hit == {j \in 1..Len(t.slots) : Len(t.slots[j].n) = Len(f) /\ Fold(Decode(t.slots[j].n)) = f}
  IN  IF hit = {} THEN {}
      ELSE LET j == CHOOSE x \in hit : TRUE
           IN  IF Len(q) = 1 THEN {<<k, j>>}
               ELSE IF ~IsDirSlot(t.slots[j]) THEN {}
               ELSE UNION {Find(img, m, Tail(q)) : m \in TabAt(img, Append(t.p, t.slots[j].n))}

\* the table of the directory that slot j of table k names
TabOf(img, k, j) == LET t == img.tabs[k] IN CHOOSE m \in TabAt(img, Append(t.p, t.slots[j].n)) : TRUE
=============================================================================
