------------------------------ MODULE XDamage -------------------------------
(***************************************************************************)
(* What a reader may answer about an image of which a part is lost.        *)
(*                                                                         *)
(* An image im is [desc, tabs, files]: desc the sector of the volume       *)
(* descriptor, tabs[k] = [up, secs] a directory table, up the table it is  *)
(* listed in (0: the root table), files[k] = [tab, secs, used], used the   *)
(* bytes of the last sector that belong to the file.                       *)
(*                                                                         *)
(* A damage d is [bad, cut]: bad are unreadable sectors; from byte cut[2]  *)
(* of sector cut[1] on the image is missing altogether.                    *)
(*                                                                         *)
(* A question op is [k, t, f, lo, hi]:                                     *)
(*   "vol"  the volume            "list" entries of table t                *)
(*   "look" an entry of table t   "tree" every entry below table t         *)
(*   "read" parts lo..hi of file f          "all"  the same with contents  *)
(* An answer is "same" as that of the intact image, "err" (failure is      *)
(* reported), or anything else.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* <<sector, bytes of it that matter>>
Cells(secs, used) == {<<secs[j], IF j = Len(secs) THEN used ELSE 2048>> : j \in 1..Len(secs)}
TabCells(im, t) == Cells(im.tabs[t].secs, 2048)

RECURSIVE Chain(_, _)
Chain(im, t) == IF t = 0 THEN {<<im.desc, 2048>>} ELSE TabCells(im, t) \cup Chain(im, im.tabs[t].up)

RECURSIVE IsBelow(_, _, _)
IsBelow(im, t, u) == IF u = 0 THEN FALSE ELSE u = t \/ IsBelow(im, t, im.tabs[u].up)

FileCells(im, f, lo, hi) ==
  LET F == im.files[f] IN {<<F.secs[j], IF j = Len(F.secs) THEN F.used ELSE 2048>> : j \in lo..hi}

Tabs(im, t) == {u \in 1..Len(im.tabs) : IsBelow(im, t, u)}
Need(im, op) ==
  CASE op.k = "vol"            -> Chain(im, 0)
    [] op.k \in {"list", "look"} -> Chain(im, op.t)
    [] op.k = "read"           -> Chain(im, op.t) \cup FileCells(im, op.f, op.lo, op.hi)
    [] op.k = "tree"           -> Chain(im, op.t) \cup UNION {TabCells(im, u) : u \in Tabs(im, op.t)}
    [] op.k = "all"            -> Chain(im, op.t) \cup UNION {TabCells(im, u) : u \in Tabs(im, op.t)}
                                  \cup UNION {FileCells(im, f, 1, Len(im.files[f].secs)) :
                                              f \in {g \in 1..Len(im.files) : im.files[g].tab \in Tabs(im, op.t)}}

Lost(d, c) == \/ \E x \in d.bad : x = c[1]
              \/ c[1] > d.cut[1]
              \/ c[1] = d.cut[1] /\ c[2] > d.cut[2]
Reaches(im, d, op) == \A c \in Need(im, op) : ~Lost(d, c)

\* how: "lasting" damage d; "once": one read failed, for which a reader may give up;
\*      "part": one read gave less than was asked for, which is no failure
Right(im, d, how, op, res) ==
  /\ res \in {"same", "err"}
  /\ how = "lasting" /\ Reaches(im, d, op) => res = "same"
  /\ how = "part" => res = "same"
=============================================================================
