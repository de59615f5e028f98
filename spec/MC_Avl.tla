------------------------------- MODULE MC_Avl -------------------------------
(***************************************************************************)
(* Insertion into the tree of a directory, for every shape such a tree can *)
(* have up to N entries and every place a further one can go to.  Names    *)
(* are ranks here: a new entry goes into one of the n+1 gaps between the   *)
(* present ones.  hist, the gaps chosen so far, is not part of the view:   *)
(* one history per shape and next gap is printed and replayed into the     *)
(* real packer.                                                            *)
(***************************************************************************)
EXTENDS XWriter, Json

CONSTANTS N, Emit
VARIABLES t, hist

\* the in-order rank of nodes is implied by the shape; Put needs a place
RECURSIVE PutGap(_, _)
PutGap(u, g) ==
  IF u = Leaf THEN Node(Leaf, 0, Leaf)
  ELSE IF g <= Count(u[1]) THEN Fix(Node(PutGap(u[1], g), 0, u[3]))
  ELSE Fix(Node(u[1], 0, PutGap(u[3], g - Count(u[1]) - 1)))

RECURSIVE IsBalanced(_)
IsBalanced(u) == u = Leaf \/ (/\ Lean(u) \in {-1, 0, 1} /\ IsBalanced(u[1]) /\ IsBalanced(u[3])
                              /\ u[4] = 1 + Max(Height(u[1]), Height(u[3])))

Init == t = Leaf /\ hist = <<>>
Next == /\ Count(t) < N
        /\ \E g \in 0..Count(t) :
             /\ t' = PutGap(t, g)
             /\ hist' = Append(hist, g)
             /\ ~Emit \/ PrintT("SCEN " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<t, hist>>
View == t

IsAvl == IsBalanced(t)
NoneLost == Count(t) = Len(hist)
\* 1.44 log2(n + 2): the height a reader may rely on
RECURSIVE Least(_)
Least(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + Least(h - 1) + Least(h - 2)
Shallow == Least(Height(t)) <= Count(t)
=============================================================================
