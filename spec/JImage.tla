------------------------------- MODULE JImage -------------------------------
(***************************************************************************)
(* Judges recorded packing and reading of images against the layout and    *)
(* tree model.  Every event is one image with everything that was observed *)
(* about it; Verdict is the set of broken obligations, named by property.  *)
(*                                                                         *)
(* Event fields (h: which of them are meaningful):                         *)
(*   src, res       source listings, result of packing ("ok", "err", ...)  *)
(*   odd            what the source holds besides files and directories:   *)
(*                  "no" cannot be stored, "link" may stand for its target *)
(*   own            the packer under test wrote it                         *)
(*   img            raw image, parsed independently                        *)
(*   tree           file_tree + read_data_all: nodes with decoded names    *)
(*   dirs           per table: walk and scan results                       *)
(*   looks          path lookups                                           *)
(*   reads          data reads                                             *)
(*   prog           progress reports (tot: announced total, ndisc, disc:   *)
(*                  directories discovered and their entries)              *)
(*   nums, tots     the counters printed with them                         *)
(***************************************************************************)
EXTENDS XLook, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i

Has(e, f) == f \in e.has

Fail(c, name) == IF c THEN {} ELSE {name}

(* -------- packing ------------------------------------------------------ *)

PackVerdict(e) ==
  LET rep == Representable(e.src) /\ e.odd = <<>>
      unr == Unrepresentable(e.src) \/ "no" \in SeqToSet(e.odd)
  IN  Fail(rep => e.res = "ok", "C01_accept")
      \cup Fail(rep => e.res = "ok", "C19_accept")
      \cup Fail(unr => e.res = "err", "C19_reject")
      \cup Fail(e.res \in {"ok", "err"}, "C19_panic")

\* accepted: then nothing of the source is dropped or altered
TreeVerdict(e) ==
  LET S == SourceTree(e.src)
      same == TreeOf(e.img) = EncTree(S) /\ SlotCount(e.img) = Cardinality(S)
  IN  Fail(same, "C01_raw") \cup Fail(same, "C19_altered")

ApiTree(e) == {[p |-> n.p, d |-> n.d, sz |-> IF n.d THEN <<0, 0>> ELSE n.sz, h |-> n.h]
                : n \in SeqToSet(e.tree)}

ApiVerdict(e) ==
  LET S == SourceTree(e.src)
  IN  Fail(Len(e.tree) = Cardinality(S) /\ ApiTree(e) = S, "C01_tree")

LayoutVerdict(e) ==
  LET img == e.img
      T == img.tabs
  IN  Fail(img.bad = "", "C02_parse")
      \cup Fail(\A k \in 1..Len(T) : NoStraddle(T[k]), "C02_straddle")
      \cup Fail(\A k \in 1..Len(T) : SlotsInside(T[k]), "C02_entry_bounds")
      \cup Fail(\A k \in 1..Len(T) : SlotsDisjoint(T[k]), "C02_entry_overlap")
      \cup Fail(\A k \in 1..Len(T) : BlankFilled(T[k]), "C02_fill")
      \cup Fail(ExtentsDisjoint(img), "C02_overlap")
      \cup Fail(InBounds(img), "C02_bounds")
      \cup Fail(Padded(img), "C02_padding")
      \cup Fail(UNION {{<<Append(T[k].p, T[k].slots[j].n), IsDirSlot(T[k].slots[j])>>
                         : j \in 1..Len(T[k].slots)} : k \in 1..Len(T)}
                = {<<n.p, n.d>> : n \in EncTree(SourceTree(e.src))}, "C02_dirflag")
      \cup Fail(\A k \in 1..Len(T) : Ordered(T[k]), "C03_order")
      \cup Fail(\A k \in 1..Len(T) : Balanced(T[k]), "C03_balance")

(* -------- reading ------------------------------------------------------ *)

EntryView(x) == [n |-> x.n, attr |-> x.attr, sec |-> x.sec, sz |-> x.sz, pos |-> x.pos]

TableViews(t) == {SlotView(t, t.slots[k]) : k \in 1..Len(t.slots)}

ListingIs(res, lst, t) ==
  /\ res = "ok"
  /\ Len(lst) = Len(t.slots)
  /\ {EntryView(x) : x \in SeqToSet(lst)} = TableViews(t)

DirVerdict(e) ==
  Fail(\A k \in 1..Len(e.dirs) :
         LET d == e.dirs[k] IN ListingIs(d.wres, d.walk, e.img.tabs[d.t]), "C04_walk")
  \cup
  Fail(\A k \in 1..Len(e.dirs) :
         LET d == e.dirs[k] IN ListingIs(d.sres, d.scan, e.img.tabs[d.t]), "C04_scan")
  \cup
  Fail(\A k \in 1..Len(e.dirs) :
         LET d == e.dirs[k] IN \A x \in SeqToSet(d.walk) : x.name = Decode(x.n), "C04_name")

\* the recursive listing, with positions
FullVerdict(e) ==
  LET T == e.img.tabs
      V == UNION {{[p |-> Append(DecPath(T[k].p), Decode(T[k].slots[j].n)),
                    d |-> IsDirSlot(T[k].slots[j]), v |-> SlotView(T[k], T[k].slots[j])]
                   : j \in 1..Len(T[k].slots)} : k \in 1..Len(T)}
      W == {[p |-> n.p, d |-> n.d, v |-> EntryView(n)] : n \in SeqToSet(e.tree)}
  IN  Fail(e.tres = "ok" /\ Len(e.tree) = SlotCount(e.img) /\ W = V, "C04_tree")

LookOk(img, q) ==
  LET F == IF q.q = <<>> THEN {} ELSE Find(img, 1, q.q)
  IN  IF F = {} THEN q.res = "err"
      ELSE /\ q.res = "ok"
           /\ LET f == CHOOSE x \in F : TRUE
              IN  EntryView(q) = SlotView(img.tabs[f[1]], img.tabs[f[1]].slots[f[2]])

LookVerdict(e) ==
  LET okAll == \A k \in 1..Len(e.looks) : LookOk(e.img, e.looks[k])
  IN  Fail(okAll, "C04_lookup") \cup Fail(e.own => okAll, "C03_lookup")

(* -------- data reads --------------------------------------------------- *)
(* A file has fsz bytes, of which the image really holds the first avail.  *)
(* how = "all": the whole file; "at": size bytes from off; "buf": exactly  *)
(* the first size <= fsz bytes; "seek": raw device positioned at the file. *)
(* eq: the returned bytes are the file's bytes at that place.              *)

Min(a, b) == IF a < b THEN a ELSE b

ReadLen(r) ==
  CASE r.how = "at"  -> IF r.off >= r.fsz THEN 0 ELSE Min(r.size, r.fsz - r.off)
    [] r.how = "buf" -> IF r.fsz = 0 THEN 0 ELSE r.size
    [] OTHER         -> r.fsz
ReadOk(r) ==
  LET n == ReadLen(r)
      o == IF r.how = "at" THEN r.off ELSE 0
  IN  IF n > 0 /\ o + n > r.avail THEN r.res = "err"
      \* nothing asked of a file the image ends before: a device may object to the place
      ELSE IF n = 0 /\ r.fsz > 0 /\ r.avail <= 0 /\ r.res = "err" THEN TRUE
      ELSE r.res = "ok" /\ r.n = n /\ r.eq

ReadVerdict(e) == Fail(\A k \in 1..Len(e.reads) : ReadOk(e.reads[k]), "C07_read")

(* -------- progress ----------------------------------------------------- *)
(* prog: [k: "dir" or "file", p: path, sec], tot: announced total          *)

ProgVerdict(e) ==
  LET T == e.img.tabs
      D == {<<"dir", DecPath(T[k].p), T[k].sec>> : k \in 1..Len(T)}
      F == UNION {{<<"file", Append(DecPath(T[k].p), Decode(T[k].slots[j].n)), T[k].slots[j].sec>>
                   : j \in 1..Len(T[k].slots)} : k \in 1..Len(T)}
      P == {<<x.k, x.p, x.sec>> : x \in SeqToSet(e.prog)}
  IN  Fail(P = D \cup F /\ Len(e.prog) = Cardinality(P), "C21_progress")
      \cup Fail(e.tot = Len(e.prog) /\ e.fin = 1, "C21_totals")
      \cup Fail(e.ndisc = Len(T) /\ e.disc = SlotCount(e.img), "C21_discovered")

\* as printed by the tool: lines [num/tot], or without numbers (tot = 0)
PrintedVerdict(e) ==
  LET T == e.img.tabs
      D == {<<"dir", DecPath(T[k].p), T[k].sec>> : k \in 1..Len(T)}
      F == UNION {{<<"file", Append(DecPath(T[k].p), Decode(T[k].slots[j].n)), T[k].slots[j].sec>>
                   : j \in 1..Len(T[k].slots)} : k \in 1..Len(T)}
      P == {<<x.k, x.p, x.sec>> : x \in SeqToSet(e.prog)}
  IN  Fail(P = D \cup F /\ Len(e.prog) = Cardinality(P), "C21_printed")
      \cup Fail(e.tot = 0 \/ (/\ e.nums = [k \in 1..Len(e.prog) |-> k]
                              /\ e.tots = [k \in 1..Len(e.prog) |-> Len(e.prog)]), "C21_counters")

Verdict(e) ==
  LET H == SeqToSet(e.has)
      G(f, V) == IF f \in H THEN V ELSE {}
  IN  G("src",   PackVerdict(e))
      \cup G("raw",   TreeVerdict(e))
      \cup G("api",   ApiVerdict(e))
      \cup G("own",   LayoutVerdict(e))
      \cup G("dirs",  DirVerdict(e))
      \cup G("tree",  FullVerdict(e))
      \cup G("looks", LookVerdict(e))
      \cup G("reads", ReadVerdict(e))
      \cup G("prog",  ProgVerdict(e))
      \cup G("cprog", PrintedVerdict(e))

JInit == i = 0
JNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
