-------------------------------- MODULE JCli --------------------------------
(***************************************************************************)
(* What the reading commands of the command line tool print.  An event is  *)
(* one image [img, ft: creation time, cks: content checksum or "" when     *)
(* data is missing] and cmds, a sequence of commands that were run on it:  *)
(*   k     "ls", "tree", "md5", "vol", "info", "sum"                       *)
(*   whole no path was given;  q: the path otherwise (<<>>: the root)      *)
(*   res   "ok", "err" (an exit status of its own), "panic", "hang", or    *)
(*         "garbled" when the output is not in the command's format        *)
(* and what was printed, parsed:                                           *)
(*   names (ls), lines [p, d, sz, m] (tree, md5), cnt and tot (tree),      *)
(*   vol [valid, ft, sec, sz], ent and kids (info), sums (sum).            *)
(* Slots of img also have m, the MD5 of a file's bytes.                    *)
(***************************************************************************)
EXTENDS XLook, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}

Target(e, c) == IF c.q = <<>> THEN {} ELSE Find(e.img, 1, c.q)
IsRoot(c) == c.whole \/ c.q = <<>>
SlotAt(e, f) == e.img.tabs[f[1]].slots[f[2]]
TheSlot(e, c) == CHOOSE f \in Target(e, c) : TRUE

\* the table that a directory command shows, 0: there is none
ShownTab(e, c) ==
  IF IsRoot(c) THEN 1
  ELSE LET F == Target(e, c) IN
       IF F = {} THEN 0
       ELSE LET f == TheSlot(e, c) IN IF IsDirSlot(SlotAt(e, f)) THEN TabOf(e.img, f[1], f[2]) ELSE 0

Missing(e, k, j) == e.img.tabs[k].slots[j].h = "TRUNCATED"

\* ---- ls
LsOk(e, c) ==
  LET k == ShownTab(e, c) IN
  IF k = 0 THEN c.res = "err"
  ELSE LET t == e.img.tabs[k] IN
       /\ c.res = "ok"
       /\ Len(c.names) = Len(t.slots)
       /\ SeqToSet(c.names) = {Decode(t.slots[j].n) : j \in 1..Len(t.slots)}

\* ---- tree
AllSlots(e) == UNION {{<<k, j>> : j \in 1..Len(e.img.tabs[k].slots)} : k \in 1..Len(e.img.tabs)}
FullPath(e, s) == Append(DecPath(e.img.tabs[s[1]].p), Decode(SlotAt(e, s).n))
Below(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p

RECURSIVE SumSizes(_, _, _)
SumSizes(e, S, acc) ==
  IF S = {} THEN acc
  ELSE LET s == CHOOSE x \in S : TRUE
           z == SlotAt(e, s).sz
           lo == acc[2] + z[2]
       IN  SumSizes(e, S \ {s}, <<acc[1] + z[1] + lo \div Mib, lo % Mib>>)

TreeOk(e, c) ==
  LET S == AllSlots(e)
      F == {s \in S : ~IsDirSlot(SlotAt(e, s))}
  IN  /\ c.res = "ok"
      /\ Len(c.lines) = Cardinality(S)
      /\ {<<l.p, l.d, l.sz>> : l \in SeqToSet(c.lines)}
           = {<<FullPath(e, s), IsDirSlot(SlotAt(e, s)), IF IsDirSlot(SlotAt(e, s)) THEN <<0, 0>> ELSE SlotAt(e, s).sz>> : s \in S}
      /\ c.cnt = Cardinality(F)
      /\ c.tot = SumSizes(e, F, <<0, 0>>)

\* ---- md5: files below the path, or the one file; lines for directories are ignored
Md5Files(e, c) ==
  LET F == {s \in AllSlots(e) : ~IsDirSlot(SlotAt(e, s))} IN
  IF IsRoot(c) THEN F
  ELSE LET f == TheSlot(e, c)
           p == FullPath(e, f)
       IN  IF IsDirSlot(SlotAt(e, f)) THEN {s \in F : Below(p, FullPath(e, s))} ELSE {f}
\* the path that was asked for is printed as it was spelled
Norm(e, c, p) ==
  IF IsRoot(c) THEN p
  ELSE LET b == FullPath(e, TheSlot(e, c)) IN
       IF Len(p) >= Len(b) /\ FoldPath(SubSeq(p, 1, Len(b))) = FoldPath(b)
       THEN b \o SubSeq(p, Len(b) + 1, Len(p)) ELSE p
Md5Ok(e, c) ==
  IF ~IsRoot(c) /\ Target(e, c) = {} THEN c.res = "err"
  ELSE LET F == Md5Files(e, c)
           D == {FullPath(e, s) : s \in {x \in AllSlots(e) : IsDirSlot(SlotAt(e, x))}}
           N == [k \in 1..Len(c.lines) |-> <<Norm(e, c, c.lines[k].p), c.lines[k].m>>]
           L == SelectSeq(N, LAMBDA x : x[1] \notin D)
       IN  IF \E s \in F : Missing(e, s[1], s[2]) THEN c.res = "err"
           ELSE /\ c.res = "ok"
                /\ Len(L) = Cardinality(F)
                /\ SeqToSet(L) = {<<FullPath(e, s), SlotAt(e, s).m>> : s \in F}

\* ---- info
VolOk(e, c) ==
  /\ c.res = "ok"
  /\ c.vol = [valid |-> TRUE, ft |-> e.ft, sec |-> e.img.root.sec, sz |-> e.img.root.size]

AttrNames(a) ==
  (IF HasBit(a, 1) THEN {"Read-Only"} ELSE {}) \cup (IF HasBit(a, 2) THEN {"Hidden"} ELSE {})
  \cup (IF HasBit(a, 4) THEN {"System"} ELSE {}) \cup (IF HasBit(a, 16) THEN {"Directory"} ELSE {})
  \cup (IF HasBit(a, 32) THEN {"Archive"} ELSE {}) \cup (IF HasBit(a, 128) THEN {"Normal"} ELSE {})

\* no child may be shown as none (-1) or as the marker for it
ChildOk(t, x, v) == IF x = 0 THEN v \in {-1, 262140} ELSE v = t.slots[x].off
EntOk(e, f, x) ==
  LET t == e.img.tabs[f[1]]
      s == t.slots[f[2]]
  IN  /\ x.name = Decode(s.n)
      /\ x.pos = SlotView(t, s).pos
      /\ ChildOk(t, s.l, x.l) /\ ChildOk(t, s.r, x.r)
      /\ x.sec = s.sec /\ x.sz = s.sz
      /\ Len(x.attr) = Cardinality(SeqToSet(x.attr))
      /\ SeqToSet(x.attr) = AttrNames(s.attr)
KidsOk(e, k, kids) ==
  LET t == e.img.tabs[k] IN
  /\ Len(kids) = Len(t.slots)
  /\ \A j \in 1..Len(t.slots) : \E y \in 1..Len(kids) : kids[y].head = kids[y].name /\ EntOk(e, <<k, j>>, kids[y])
InfoOk(e, c) ==
  IF c.q = <<>> THEN c.res = "ok" /\ KidsOk(e, 1, c.kids)
  ELSE IF Target(e, c) = {} THEN c.res = "err"
  ELSE LET f == TheSlot(e, c) IN
       /\ c.res = "ok"
       /\ Len(c.ent) = 1
       /\ EntOk(e, f, c.ent[1])
       /\ IF IsDirSlot(SlotAt(e, f)) THEN KidsOk(e, TabOf(e.img, f[1], f[2]), c.kids) ELSE c.kids = <<>>

\* ---- checksum of several images: each on its own line, with its name
SumOk(e, c) ==
  IF e.cks = "" \/ c.bad THEN c.res = "err"
  ELSE c.res = "ok" /\ c.sums = [k \in 1..c.n |-> <<k, e.cks>>]

CmdOk(e, c) ==
  CASE c.k = "ls"   -> LsOk(e, c)
    [] c.k = "tree" -> TreeOk(e, c)
    [] c.k = "md5"  -> Md5Ok(e, c)
    [] c.k = "vol"  -> VolOk(e, c)
    [] c.k = "info" -> InfoOk(e, c)
    [] c.k = "sum"  -> SumOk(e, c)
    [] c.k = "none" -> c.res = "err"        \* no volume in the file

\* part: the image lost its end after it was described by e.img; a command may fail then, but not tell anything else
Right(e, c) == CmdOk(e, c) \/ (e.part /\ c.res = "err")
Verdict(e) ==
  UNION {Fail(e.cmds[k].k # x \/ Right(e, e.cmds[k]), "C21_" \o x)
         : k \in 1..Len(e.cmds), x \in {"ls", "tree", "md5", "vol", "info", "sum", "none"}}

JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
