------------------------------ MODULE XVolume -------------------------------
(***************************************************************************)
(* Where a volume may start.  There are four candidate partition offsets,  *)
(* probed in a fixed order; the state of a candidate is what an image      *)
(* holds at sector 32 counted from it:                                     *)
(*   "full" a descriptor with both magics   "m0", "m1" one of them damaged *)
(*   "none" something else, or nothing      "cut" the image ends inside    *)
(* Place[c] is the rank of candidate c by byte position in the image.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Cands == 1..4
Place == << 1, 4, 3, 2 >>
States == {"full", "m0", "m1", "none", "cut"}

\* an image can end in one place only, and nothing lies behind its end
Possible(cand) == \A c \in Cands : cand[c] = "cut" =>
                     \A d \in Cands : Place[d] > Place[c] => cand[d] = "none"

\* the candidate the volume is read from, 0 if the image is rejected
Chosen(cand) ==
  LET F == {c \in Cands : cand[c] = "full"}
  IN  IF F = {} THEN 0 ELSE CHOOSE c \in F : \A d \in F : c <= d
=============================================================================
