------------------------------ MODULE JHostile ------------------------------
(***************************************************************************)
(* Judges what the readers answer on arbitrary images.                     *)
(* kind "entries": graph g; walk, scan: [res, s: Seq of slots, 0 unknown]; *)
(*   looks: Seq of [q, res, s]; tres (recursive listing), ts its slots.    *)
(* kind "dirs": graph d; tree/checksum/repack results, n entries listed;   *)
(*   cmds: Seq of [c, res] of commands that visit everything.              *)
(* kind "any": outs, results of everything tried; sound: what was reported *)
(*   is really in the image.                                               *)
(***************************************************************************)
EXTENDS XRead, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
Ends(r) == r \in {"ok", "err"}
SeqSet(s) == {s[j] : j \in 1..Len(s)}

LookOk(g, x) ==
  /\ Ends(x.res)
  /\ x.res = "ok" => x.s \in Reach(g) /\ g.k[x.s] = x.q
  /\ IsSearchTree(g) => (x.res = "ok") = (SlotOf(g, x.q) # None)

WalkOk(g, res, s) ==
  /\ Ends(res)
  /\ res = "ok" => /\ SeqSet(s) = Reach(g)
                   /\ Len(s) = Cardinality(Reach(g))
                   /\ ~Shared(g)
  /\ IsTreeGraph(g) => res = "ok"

Entries(e) ==
  Fail(Ends(e.wres) /\ Ends(e.sres) /\ Ends(e.tres) /\ Ends(e.cres) /\ Ends(e.rres), "C05_ends")
  \cup Fail(\A j \in 1..Len(e.looks) : LookOk(e.g, e.looks[j]), "C05_lookup")
  \cup Fail(\A j \in 1..Len(e.looks) : LookOk(e.g, e.looks[j]) \/ ~IsSearchTree(e.g), "C04_lookup_shapes")
  \cup Fail(WalkOk(e.g, e.wres, e.ws) \/ ~IsTreeGraph(e.g), "C04_walk_shapes")
  \cup Fail(WalkOk(e.g, e.tres, e.ts) \/ ~IsTreeGraph(e.g), "C04_tree_shapes")
  \cup Fail(WalkOk(e.g, e.wres, e.ws), "C05_walk")
  \cup Fail(WalkOk(e.g, e.tres, e.ts), "C05_tree")
  \cup Fail(e.sres = "ok" => SeqSet(e.ss) \subseteq Slots(e.g) /\ Cardinality(SeqSet(e.ss)) = Len(e.ss), "C05_scan")
  \cup Fail(Shared(e.g) => e.cres = "err", "C05_checksum")

Dirs(e) ==
  LET sh == DShared(e.d)
      fine == ~sh /\ ~DOutside(e.d)
  IN  Fail(Ends(e.tres) /\ Ends(e.cres) /\ Ends(e.rres) /\ \A j \in 1..Len(e.cmds) : Ends(e.cmds[j].res), "C05_ends")
      \cup Fail(sh => e.tres = "err" /\ e.cres = "err" /\ e.rres = "err", "C05_shared")
      \cup Fail(fine => e.tres = "ok" /\ e.cres = "ok" /\ e.rres = "ok" /\ e.n = DCount(e.d, DReach(e.d)), "C05_complete")
      \cup Fail(sh => \A j \in 1..Len(e.cmds) : e.cmds[j].res = "err", "C05_cmd_shared")
      \cup Fail(fine => \A j \in 1..Len(e.cmds) : e.cmds[j].res = "ok", "C05_cmd_complete")

Whatever(e) == Fail(\A j \in 1..Len(e.outs) : Ends(e.outs[j].res), "C05_ends")
          \cup Fail(e.sound, "C05_sound")

Verdict(e) == CASE e.kind = "entries" -> Entries(e) [] e.kind = "dirs" -> Dirs(e) [] OTHER -> Whatever(e)
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
