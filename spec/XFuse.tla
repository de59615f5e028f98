------------------------------- MODULE XFuse --------------------------------
(***************************************************************************)
(* A session of the mount daemon.  The image does not change; what changes *)
(* is which entries already have an inode number (known) and what has been *)
(* shown of the directory listings (succ).  An entry of the image is       *)
(* <<k, j>>: slot j of table k; the root directory, which has no slot, is  *)
(* <<0, 0>> and always has inode 1.                                        *)
(*                                                                         *)
(* The predicates say which answers are right in a given session state;    *)
(* they leave open how inode numbers and listing offsets are chosen.       *)
(***************************************************************************)
EXTENDS XLayout

ENOENT == 2
Root == <<0, 0>>
Dot == <<46>>
DotDot == <<46, 46>>

Ents(known, x) == {r.e : r \in {q \in known : q.ino = x}} \cup (IF x = 1 THEN {Root} ELSE {})

Slot(img, e) == img.tabs[e[1]].slots[e[2]]
IsDirEnt(img, e) == e = Root \/ IsDirSlot(Slot(img, e))
\* the table a directory entry stands for
TabOfEnt(img, e) ==
  IF e = Root THEN 1
  ELSE LET p == Append(img.tabs[e[1]].p, Slot(img, e).n)
       IN  CHOOSE k \in 1..Len(img.tabs) : img.tabs[k].p = p

KindOf(img, e) == IF IsDirEnt(img, e) THEN "dir" ELSE "file"

\* One entry has one inode, one inode has one entry, and the root's is taken.
InoOk(known, e, ino) ==
  /\ ino > 1
  /\ \A r \in known : (r.e = e) <=> (r.ino = ino)

Learn(known, e, ino) == known \cup {[ino |-> ino, e |-> e]}

Hits(img, k, name) ==
  LET t == img.tabs[k]
      f == Fold(name)
  IN  {j \in 1..Len(t.slots) : Len(t.slots[j].n) = Len(f) /\ Fold(Decode(t.slots[j].n)) = f}

(* -------- lookup: [ino, name, err, rino, aino, sz, kind] ---------------- *)

LookupTarget(img, known, q) ==
  UNION {IF ~IsDirEnt(img, e) THEN {}
         ELSE LET k == TabOfEnt(img, e) IN {<<k, j>> : j \in Hits(img, k, q.name)}
         : e \in Ents(known, q.ino)}

AttrOk(img, e, q) ==
  /\ q.kind = KindOf(img, e)
  /\ IsDirEnt(img, e) \/ q.sz = Slot(img, e).sz

LookupOk(img, known, q) ==
  LET E == Ents(known, q.ino)
      T == LookupTarget(img, known, q)
  IN  IF T = {}
      THEN /\ q.err # 0
           /\ (\E e \in E : IsDirEnt(img, e)) => q.err = ENOENT
      ELSE /\ q.err = 0
           /\ LET e == CHOOSE x \in T : TRUE
              IN  InoOk(known, e, q.rino) /\ q.aino = q.rino /\ AttrOk(img, e, q)

AfterLookup(img, known, q) ==
  LET T == LookupTarget(img, known, q)
  IN  IF T = {} \/ q.err # 0 THEN known ELSE Learn(known, CHOOSE x \in T : TRUE, q.rino)

(* -------- getattr: [ino, err, aino, sz, kind] --------------------------- *)

GetattrOk(img, known, q) ==
  LET E == Ents(known, q.ino)
  IN  IF E = {} THEN q.err # 0
      ELSE /\ q.err = 0
           /\ q.aino = q.ino
           /\ LET e == CHOOSE x \in E : TRUE
              IN  q.kind = KindOf(img, e) /\ (IsDirEnt(img, e) \/ q.sz = Slot(img, e).sz)

(* -------- readdir: [ino, off, err, l: Seq of [ino, off, n, kind]] ------- *)
(* succ maps <<ino, offset>> to what follows there.                        *)

End == [n |-> <<>>, kind |-> "end", off |-> 0]
Item(x) == [n |-> x.n, kind |-> x.kind, off |-> x.off]
IsDots(x) == x.n = Dot \/ x.n = DotDot

\* the facts an answer states
Facts(q) ==
  IF q.l = <<>> THEN << <<q.ino, q.off>> :> End >>
  ELSE [m \in 1..Len(q.l) |->
          (IF m = 1 THEN <<q.ino, q.off>> ELSE <<q.ino, q.l[m-1].off>>) :> Item(q.l[m])]

RECURSIVE AddFacts(_, _, _)
\* <<consistent, succ'>>
AddFacts(succ, fs, m) ==
  IF m > Len(fs) THEN <<TRUE, succ>>
  ELSE LET key == CHOOSE k \in DOMAIN fs[m] : TRUE
           val == fs[m][key]
       IN  IF key \in DOMAIN succ
           THEN IF succ[key] = val THEN AddFacts(succ, fs, m + 1) ELSE <<FALSE, succ>>
           ELSE AddFacts(key :> val @@ succ, fs, m + 1)

\* what has been listed from the start of a directory, if its end was seen
RECURSIVE Chain(_, _, _, _)
Chain(succ, ino, off, fuel) ==
  IF <<ino, off>> \notin DOMAIN succ \/ fuel = 0 THEN << <<>>, FALSE >>
  ELSE LET x == succ[<<ino, off>>]
       IN  IF x = End THEN << <<>>, TRUE >>
           ELSE LET r == Chain(succ, ino, x.off, fuel - 1) IN << <<x>> \o r[1], r[2] >>

EntryByName(img, k, n) ==
  IF ~Encodable(n) THEN {}
  ELSE LET b == TLCEval(Encode(n)) IN {j \in 1..Len(img.tabs[k].slots) : img.tabs[k].slots[j].n = b}

RECURSIVE LearnAll(_, _, _, _, _)
\* <<ok, known'>> after the entries of a listing, in order
LearnAll(img, known, k, l, m) ==
  IF m > Len(l) THEN <<TRUE, known>>
  ELSE IF IsDots(l[m]) THEN
         IF l[m].kind = "dir" THEN LearnAll(img, known, k, l, m + 1) ELSE <<FALSE, known>>
  ELSE LET J == EntryByName(img, k, l[m].n)
       IN  IF J = {} THEN <<FALSE, known>>
           ELSE LET e == <<k, CHOOSE j \in J : TRUE>>
                IN  IF InoOk(known, e, l[m].ino) /\ l[m].kind = KindOf(img, e)
                    THEN LearnAll(img, Learn(known, e, l[m].ino), k, l, m + 1)
                    ELSE <<FALSE, known>>

\* a listing that was seen to its end holds every entry exactly once
CompleteOk(img, k, succ, ino) ==
  LET c == Chain(succ, ino, 0, 5000)
      real == SelectSeq(c[1], LAMBDA x : ~IsDots(x))
  IN  c[2] => /\ Len(real) = Len(img.tabs[k].slots)
              /\ {real[m].n : m \in 1..Len(real)} =
                 {Decode(img.tabs[k].slots[j].n) : j \in 1..Len(img.tabs[k].slots)}

DirEnts(img, known, ino) == {e \in Ents(known, ino) : IsDirEnt(img, e)}

ReaddirOk(img, known, succ, q) ==
  LET E == DirEnts(img, known, q.ino)
  IN  IF E = {} THEN q.err # 0
      ELSE /\ q.err = 0
           /\ LET k == TabOfEnt(img, CHOOSE e \in E : TRUE)
                  a == AddFacts(succ, Facts(q), 1)
              IN  /\ a[1]
                  /\ LearnAll(img, known, k, q.l, 1)[1]
                  /\ q.l = <<>> => CompleteOk(img, k, a[2], q.ino)

AfterReaddir(img, known, succ, q) ==
  LET E == DirEnts(img, known, q.ino)
  IN  IF E = {} \/ q.err # 0 THEN <<known, succ>>
      ELSE LET k == TabOfEnt(img, CHOOSE e \in E : TRUE)
           IN  <<LearnAll(img, known, k, q.l, 1)[2], AddFacts(succ, Facts(q), 1)[2]>>

(* -------- read: [ino, off, size, err, n, m: set of matching entries] ---- *)
(* off is a pair <<MiB, bytes>>; m lists the files that hold the returned  *)
(* bytes at that offset.                                                   *)

PairLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* a - b for a >= b, saturating
PairSub(a, b) == IF a[1] - b[1] > 500 THEN 500 * 1048576 ELSE (a[1] - b[1]) * 1048576 + a[2] - b[2]
PairAdd(a, n) == << a[1] + (a[2] + n) \div 1048576, (a[2] + n) % 1048576 >>
Least(a, b) == IF a < b THEN a ELSE b

\* how many bytes of the image lie behind the start of a file
Avail(img, s) ==
  IF s.sec > img.len[1] THEN <<0, 0>>
  ELSE LET d == img.len[1] - s.sec IN << d \div 512, (d % 512) * SecSize + img.len[2] >>

ReadOkF(img, known, q) ==
  LET E == Ents(known, q.ino)
  IN  IF E = {} \/ E = {Root} THEN q.err # 0
      ELSE LET e == CHOOSE x \in E : TRUE
               s == Slot(img, e)
               n == IF PairLe(s.sz, q.off) THEN 0 ELSE Least(q.size, PairSub(s.sz, q.off))
           IN  IF IsDirEnt(img, e) THEN TRUE
               ELSE IF n > 0 /\ ~PairLe(PairAdd(q.off, n), Avail(img, s)) THEN q.err # 0
               ELSE q.err = 0 /\ q.n = n /\ (n = 0 \/ \E x \in SeqToSet(q.m) : x = e)

(* -------- open: [wr, err] ------------------------------------------------ *)
OpenOk(q) == IF q.wr THEN q.err # 0 ELSE q.err = 0
=============================================================================
