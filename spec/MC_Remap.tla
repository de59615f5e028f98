------------------------------ MODULE MC_Remap ------------------------------
(***************************************************************************)
(* The walk and the insertions by which an overlay can be built, one host  *)
(* entry at a time, for every short list of rules over a small tree: what  *)
(* results is what XRemap allows, whichever of the pending directories is  *)
(* listed next.  Keep = "last" lets later entries replace earlier ones and *)
(* Seek = "farthest" applies the outermost matching directory; TLC refutes *)
(* both.                                                                   *)
(***************************************************************************)
EXTENDS XRemap, TLC, Json
CONSTANTS Keep, Seek, MaxRules, Order
VARIABLES rules, todo, placed, done
vars == <<rules, todo, placed, done>>

a == 97  b == 98  c == 99  x == 120
N(p, d, pos) == [p |-> p, d |-> d, h |-> IF d THEN <<>> ELSE p, pos |-> pos]
H == << N(<< <<a>> >>, TRUE, 1), N(<< <<b>> >>, FALSE, 2), N(<< <<c>> >>, TRUE, 3),
        N(<< <<a>>, <<b>> >>, TRUE, 1), N(<< <<a>>, <<x>> >>, FALSE, 2),
        N(<< <<a>>, <<b>>, <<x>> >>, FALSE, 1),
        N(<< <<c>>, <<b>> >>, FALSE, 1), N(<< <<c>>, <<x>> >>, FALSE, 2) >>
Lit(s) == [k |-> "lit", s |-> s]
Star == [k |-> "star"]
Dir == [k |-> "dirs"]
Globs == << <<Lit(<<a>>)>>, <<Lit(<<c>>)>>, <<Star>>, <<Dir, Lit(<<x>>)>>, <<Lit(<<a, Slash>>), Star>>, <<Dir, Star, Lit(<<Slash, b>>)>>,
            <<[k |-> "all"]>>, <<Lit(<<a>>), [k |-> "rest"]>> >>
S(n) == [k |-> "sub", n |-> n]
Rews == << <<Lit(<<Slash>>)>>, <<Lit(<<b>>)>>, <<S(1)>>, <<S(0)>>, <<Lit(<<b, Slash>>), S(1)>>, <<Lit(<<x, Slash>>), S(0)>> >>
Rules == {[g |-> g, w |-> w] : g \in 1..Len(Globs), w \in 0..Len(Rews)}
Lists == UNION {[1..n -> Rules] : n \in 1..MaxRules}
Real(l) == [k \in 1..Len(l) |-> [neg |-> l[k].w = 0, g |-> Globs[l[k].g], rw |-> IF l[k].w = 0 THEN <<>> ELSE Rews[l[k].w]]]

RECURSIVE Outer(_, _, _)
Outer(rs, p, n) == IF n > Len(p) THEN 0 ELSE IF \E k \in 1..Len(rs) : Matches(rs[k], Join(Prefix(p, n))) THEN n ELSE Outer(rs, p, n + 1)
Goes(rs, p) ==
  IF Seek = "nearest" THEN Target(rs, p)
  ELSE LET n == Outer(rs, p, 1)
           d == Decide(rs, Join(Prefix(p, n)), 1, [in |-> FALSE, t |-> <<>>])
           t == IF n < Len(p) THEN d.t \o <<Slash>> \o Join(Drop(p, n)) ELSE d.t
       IN  IF n = 0 \/ ~d.in THEN [in |-> FALSE, p |-> <<>>] ELSE [in |-> PathOf(t) # <<>>, p |-> PathOf(t)]

\* image path -> [d, h, from, implied]; a file with paths below it hides them
Hidden(pl, q) == \E n \in 1..(Len(q) - 1) : Prefix(q, n) \in DOMAIN pl /\ ~pl[Prefix(q, n)].d
Put(pl, q, v) == IF q \in DOMAIN pl /\ Keep = "first" THEN pl ELSE [r \in DOMAIN pl \cup {q} |-> IF r = q THEN v ELSE pl[r]]
RECURSIVE Insert(_, _, _, _)
Insert(pl, q, n, k) ==
  IF n = Len(q) THEN Put(pl, q, [d |-> H[k].d, h |-> H[k].h, from |-> H[k].p, implied |-> FALSE])
  ELSE LET r == Prefix(q, n) IN
       Insert(IF r \in DOMAIN pl THEN pl ELSE Put(pl, r, [d |-> TRUE, h |-> <<>>, from |-> H[k].p, implied |-> TRUE]), q, n + 1, k)

Kids(p) == {k \in 1..Len(H) : Len(H[k].p) = Len(p) + 1 /\ Prefix(H[k].p, Len(p)) = p}
RECURSIVE InOrder(_, _, _)
InOrder(ks, pl, rs) == IF ks = {} THEN pl
  ELSE LET k == CHOOSE k \in ks : \A j \in ks : H[k].pos <= H[j].pos
           t == Goes(rs, H[k].p)
       IN  InOrder(ks \ {k}, IF t.in THEN Insert(pl, t.p, 1, k) ELSE pl, rs)

Init == /\ \E l \in Lists : /\ rules = Real(l)
                            /\ (Keep = "first" /\ Seek = "nearest" /\ Order = "stack" =>
                                  PrintT("SCEN " \o ToJson([k \in 1..Len(l) |-> <<l[k].g, l[k].w>>])))
        /\ todo = << <<>> >> /\ placed = << >> /\ done = FALSE
\* list one of the directories that wait: the newest, or any
List == /\ todo # <<>>
        /\ \E j \in IF Order = "stack" THEN {Len(todo)} ELSE 1..Len(todo) :
             LET d == todo[j]
                 ks == Kids(d)
             IN  /\ placed' = InOrder(ks, placed, rules)
                 /\ todo' = SubSeq(todo, 1, j - 1) \o SubSeq(todo, j + 1, Len(todo))
                            \o [n \in 1..Cardinality({k \in ks : H[k].d}) |->
                                 LET ds == {k \in ks : H[k].d}
                                     k == CHOOSE k \in ds : Cardinality({m \in ds : H[m].pos < H[k].pos}) = n - 1
                                 IN  H[k].p]
        /\ UNCHANGED <<rules, done>>
Finish == todo = <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<rules, todo, placed>>
Next == List \/ Finish
Spec == Init /\ [][Next]_vars

Seen == {q \in DOMAIN placed : ~Hidden(placed, q)}
Image == {[p |-> q, d |-> placed[q].d, h |-> placed[q].h] : q \in Seen}
Dry == {[from |-> placed[q].from, to |-> q] : q \in {r \in Seen : ~placed[r].implied}}
AsDocumented == done =>
  LET T == [k \in 1..Len(H) |-> Target(rules, H[k].p)] IN
  /\ Unique(Image) /\ Justified(H, T, Image) /\ Complete(H, T, Image)
  /\ DryFiles(H, T, Image, Dry) /\ DryDirs(H, T, Image, Dry)
=============================================================================
