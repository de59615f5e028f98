------------------------------- MODULE XRead --------------------------------
(***************************************************************************)
(* Reading directories whose pointers are arbitrary.                       *)
(*                                                                         *)
(* An entry graph is [k, l, r]: slot s has key k[s] (the rank of its name) *)
(* and children l[s], r[s]: another slot, None, Out (outside of the table) *)
(* or Blank (unused space of the table).  Slot 1 is where every search     *)
(* starts; a child offset of zero means none, so nothing points to it.     *)
(*                                                                         *)
(* A directory graph is a sequence of tables, each a sequence of items     *)
(* "f" (a file), "e" (an empty directory), "x" (a directory outside of the *)
(* image) or "1".."3" (the directory with that table).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == 0
Out == -1
Blank == -2

Slots(g) == 1..Len(g.k)
Kids(g, s) == {g.l[s], g.r[s]} \cap Slots(g)

RECURSIVE Close(_, _)
Close(g, S) == LET T == S \cup UNION {Kids(g, s) : s \in S} IN IF T = S THEN S ELSE Close(g, T)
Reach(g) == IF Len(g.k) = 0 THEN {} ELSE Close(g, {1})

InLinks(g, s) == Cardinality({p \in Reach(g) : g.l[p] = s}) + Cardinality({p \in Reach(g) : g.r[p] = s})

\* some entry is found along two ways (a cycle is one of them)
Shared(g) == \E s \in Reach(g) : InLinks(g, s) > (IF s = 1 THEN 0 ELSE 1)
\* pointers lead to entries only
Clean(g) == \A s \in Reach(g) : {g.l[s], g.r[s]} \cap {Out, Blank} = {}
IsTreeGraph(g) == Clean(g) /\ ~Shared(g)

RECURSIVE KeysBelow(_, _)
\* keys left to right; only for tree graphs
KeysBelow(g, s) == IF s = None THEN <<>>
                   ELSE KeysBelow(g, g.l[s]) \o <<g.k[s]>> \o KeysBelow(g, g.r[s])
IsSearchTree(g) ==
  /\ IsTreeGraph(g)
  /\ LET o == KeysBelow(g, 1) IN \A j \in 1..(Len(o) - 1) : o[j] < o[j+1]

\* the slot a key is found in, None if it is nowhere
SlotOf(g, q) == LET H == {s \in Reach(g) : g.k[s] = q} IN IF H = {} THEN None ELSE CHOOSE s \in H : TRUE

(* -------- directory graphs --------------------------------------------- *)
TabIx(x) == CASE x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4 [] OTHER -> 0
Subs(G, t) == {TabIx(G[t][j]) : j \in 1..Len(G[t])} \ {0}
RECURSIVE DClose(_, _)
DClose(G, S) == LET T == S \cup UNION {Subs(G, t) : t \in S} IN IF T = S THEN S ELSE DClose(G, T)
DReach(G) == DClose(G, {1})
DLinks(G, t) == Cardinality({x \in UNION {{<<p, j>> : j \in 1..Len(G[p])} : p \in DReach(G)} : TabIx(G[x[1]][x[2]]) = t})
DShared(G) == \E t \in DReach(G) : Len(G[t]) > 0 /\ DLinks(G, t) > (IF t = 1 THEN 0 ELSE 1)
DOutside(G) == \E t \in DReach(G) : \E j \in 1..Len(G[t]) : G[t][j] = "x"
\* entries a complete listing shows; only for unshared graphs
RECURSIVE DCount(_, _)
DCount(G, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN Len(G[t]) + DCount(G, S \ {t})
=============================================================================
