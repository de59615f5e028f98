------------------------------ MODULE MC_Fuse -------------------------------
(***************************************************************************)
(* The session machine run exhaustively on a small image: an inode cache   *)
(* with a counter, listings in table order with the position as offset.    *)
(* Invariant: every answer it gives satisfies the session predicates of    *)
(* XFuse.  Every history of Depth requests is printed ("HIST") and replayed*)
(* against the real daemon.                                                *)
(***************************************************************************)
EXTENDS XFuse, Json

CONSTANT Depth

N(c) == <<c>>
S(off, l, r, sec, sz, attr, n) == [off |-> off, l |-> l, r |-> r, sec |-> sec, sz |-> <<0, sz>>, attr |-> attr, n |-> n, h |-> ""]
\* root: b, a, D   D: e, F   F: (empty)
Img == [len |-> <<64, 0>>, root |-> [sec |-> 33, size |-> 2048], bad |-> "",
        tabs |-> << [p |-> <<>>, sec |-> 33, size |-> 2048, junk |-> 0,
                     slots |-> << S(0, 2, 3, 36, 3, 32, N(98)), S(16, 0, 0, 37, 5, 32, N(97)), S(32, 0, 0, 34, 2048, 16, N(68)) >>],
                    [p |-> <<N(68)>>, sec |-> 34, size |-> 2048, junk |-> 0,
                     slots |-> << S(0, 0, 2, 38, 0, 32, N(101)), S(16, 0, 0, 0, 0, 16, N(70)) >>],
                    [p |-> <<N(68), N(70)>>, sec |-> 0, size |-> 0, junk |-> 0, slots |-> <<>>] >>]

Names == {N(97), N(66), N(100), N(69), N(102), N(122)}      \* a B d E f z

VARIABLES cache, next, known, succ, ok, hist
vars == <<cache, next, known, succ, ok, hist>>

Init == cache = {} /\ next = 2 /\ known = {} /\ succ = <<>> /\ ok = TRUE /\ hist = <<>>

InoOf(e) == IF \E r \in cache : r.e = e THEN (CHOOSE r \in cache : r.e = e).ino ELSE next
Cached(e) == \E r \in cache : r.e = e
DirsKnown == {Root} \cup {r.e : r \in {x \in cache : IsDirEnt(Img, x.e)}}
Ino(e) == IF e = Root THEN 1 ELSE (CHOOSE r \in cache : r.e = e).ino

Lookup(d, n) ==
  LET k == TabOfEnt(Img, d)
      H == Hits(Img, k, n)
      none == [ino |-> Ino(d), name |-> n, err |-> ENOENT, rino |-> 0, aino |-> 0, sz |-> <<0, 0>>, kind |-> ""]
      e == <<k, CHOOSE j \in H : TRUE>>
      q == IF H = {} THEN none
           ELSE [none EXCEPT !.err = 0, !.rino = InoOf(e), !.aino = InoOf(e), !.sz = Slot(Img, e).sz, !.kind = KindOf(Img, e)]
  IN  /\ ok' = (ok /\ LookupOk(Img, known, q))
      /\ known' = AfterLookup(Img, known, q)
      /\ IF H # {} /\ ~Cached(e) THEN cache' = cache \cup {[ino |-> next, e |-> e]} /\ next' = next + 1
         ELSE UNCHANGED <<cache, next>>
      /\ succ' = succ
      /\ hist' = Append(hist, [op |-> "lookup", d |-> d, n |-> n, c |-> 0, one |-> FALSE])

\* entry number m of a listing: 1 and 2 are the dots
RECURSIVE Fill(_, _, _, _, _)
Fill(k, m, cnt, ch, nx) ==
  LET slots == Img.tabs[k].slots
      dino == 1
  IN  IF cnt = 0 \/ m > Len(slots) + 2 THEN << <<>>, ch, nx >>
      ELSE IF m <= 2 THEN
        LET r == Fill(k, m + 1, cnt - 1, ch, nx)
        IN  << << [ino |-> dino, off |-> m, n |-> IF m = 1 THEN Dot ELSE DotDot, kind |-> "dir"] >> \o r[1], r[2], r[3] >>
      ELSE LET e == <<k, m - 2>>
               has == \E r \in ch : r.e = e
               ino == IF has THEN (CHOOSE r \in ch : r.e = e).ino ELSE nx
               r == Fill(k, m + 1, cnt - 1, IF has THEN ch ELSE ch \cup {[ino |-> nx, e |-> e]}, IF has THEN nx ELSE nx + 1)
           IN  << << [ino |-> ino, off |-> m, n |-> Decode(slots[m-2].n), kind |-> KindOf(Img, e)] >> \o r[1], r[2], r[3] >>

Readdir(d, c, one) ==
  LET k == TabOfEnt(Img, d)
      f == Fill(k, c + 1, IF one THEN 1 ELSE 99, cache, next)
      q == [ino |-> Ino(d), off |-> c, err |-> 0, l |-> f[1]]
      a == AfterReaddir(Img, known, succ, q)
  IN  /\ ok' = (ok /\ ReaddirOk(Img, known, succ, q))
      /\ known' = a[1] /\ succ' = a[2]
      /\ cache' = f[2] /\ next' = f[3]
      /\ hist' = Append(hist, [op |-> "readdir", d |-> d, n |-> <<>>, c |-> c, one |-> one])

\* offsets a client may resume from: those it was given
Resumable(d) == {0} \cup {succ[x].off : x \in {y \in DOMAIN succ : y[1] = Ino(d) /\ succ[y] # End}}

Step == \E d \in DirsKnown :
          \/ \E n \in Names : Lookup(d, n)
          \/ \E c \in Resumable(d), one \in {TRUE, FALSE} : Readdir(d, c, one)

Next == /\ Len(hist) < Depth
        /\ Step
        /\ IF Len(hist') = Depth THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE

AnswersOk == ok
KnownIsCache == \A r \in known : r \in cache
Injective == \A r, s \in cache : (r.ino = s.ino) <=> (r.e = s.e)
\* an entry never changes its inode
Stable == [][\A r \in cache : r \in cache']_vars
=============================================================================
