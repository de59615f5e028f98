----------------------------- MODULE MC_Rewrite -----------------------------
(***************************************************************************)
(* Rewriting images in place (extract-xiso -r): for each image of a list,  *)
(* rename it to its .old name, pack from there to the destination (the     *)
(* original name or the same name in another directory) and, if asked to,  *)
(* delete the .old file.  Any step may fail (the run ends) and the process *)
(* may stop at any point.                                                  *)
(*                                                                         *)
(* A path is <<directory, stem, extension>>, so that different images can  *)
(* have the same .old name (game.iso, game.img) or the same destination    *)
(* (a/game.iso, b/game.iso with -d), an image can be listed twice or lie   *)
(* where another one is to be written, and an .old file may be left from   *)
(* an earlier run.                                                         *)
(*                                                                         *)
(* Guards: the refusals that keep originals apart.  Order = "late":        *)
(* deletion is the last step; "early" is a broken variant.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Max, Order, Guards
VARIABLES list, delete, dir, left, file, at, step, res
vars == <<list, delete, dir, left, file, at, step, res>>

Images == {<<"a", "g", "iso">>, <<"a", "g", "img">>, <<"b", "g", "iso">>, <<"a", "h", "iso">>}
OldOf(p) == <<p[1], p[2], "old">>
Dest(p) == IF dir = "" THEN p ELSE <<dir, p[2], p[3]>>
Dirs == {"a", "b", "o"}
Paths == Dirs \X {"g", "h"} \X {"iso", "img", "old"}
None == <<"none">>
Stranger == <<"stranger">>      \* a file that has nothing to do with the run

Lists == UNION {[1..n -> Images] : n \in 1..Max}
Listed == {list[k] : k \in 1..Len(list)}

Init == /\ list \in Lists /\ delete \in BOOLEAN /\ dir \in {"", "a", "b", "o"}
        /\ left \in SUBSET {<<"a", "g", "old">>, <<"b", "g", "old">>}
        /\ file = [p \in Paths |-> IF p \in Listed THEN <<"orig", p>> ELSE IF p \in left THEN Stranger ELSE None]
        /\ at = 1 /\ step = "check" /\ res = "run"

Cur == list[at]
Fixed == UNCHANGED <<list, delete, dir, left>>
Go(s) == step' = s /\ Fixed /\ UNCHANGED <<at, res>>
Put(p, v) == file' = [file EXCEPT ![p] = v]

Gone(k) == file[list[k]] = None
\* what a run that nothing disturbs comes to, for the replay
Scenario(r) == Guards = {"old", "taken"} /\ Order = "late" =>
                 PrintT("SCEN " \o ToJson([list |-> list, delete |-> delete, dir |-> dir, left |-> left, res |-> r, done |-> at - (IF r = "ok" THEN 0 ELSE 1)]))

\* the destination is another image of the list, or has been written for one
Taken(p) == Dest(p) # p /\ (Dest(p) \in Listed \/ \E k \in 1..at - 1 : Dest(list[k]) = Dest(p))
Check == /\ step = "check" /\ res = "run"
         /\ IF \/ Gone(at)
               \/ "taken" \in Guards /\ Taken(Cur)
               \/ "old" \in Guards /\ file[OldOf(Cur)] # None
            THEN res' = "err" /\ UNCHANGED <<at, step, file>> /\ Fixed /\ Scenario("err")
            ELSE Go("rename") /\ UNCHANGED file
Rename == /\ step = "rename" /\ res = "run"
          /\ file' = [file EXCEPT ![OldOf(Cur)] = file[Cur], ![Cur] = None]
          /\ Go(IF Order = "early" /\ delete THEN "open+delete" ELSE "open")
Open == /\ step \in {"open", "open+delete"} /\ res = "run"
        /\ file' = [file EXCEPT ![Dest(Cur)] = <<"part">>, ![OldOf(Cur)] = IF step = "open+delete" THEN None ELSE @]
        /\ Go("fill")
Fill == /\ step = "fill" /\ res = "run" /\ Put(Dest(Cur), <<"new", Cur>>)
        /\ Go(IF delete THEN "delete" ELSE "next")
Delete == /\ step = "delete" /\ res = "run" /\ Put(OldOf(Cur), None) /\ Go("next")
Advance ==
        /\ step = "next" /\ res = "run"
        /\ IF at = Len(list) THEN res' = "ok" /\ UNCHANGED <<at, step>> /\ Scenario("ok") ELSE at' = at + 1 /\ step' = "check" /\ UNCHANGED res
        /\ Fixed /\ UNCHANGED file
Stop == /\ res = "run" /\ res' \in {"err", "crash"} /\ Fixed /\ UNCHANGED <<file, at, step>>
Next == Check \/ Rename \/ Open \/ Fill \/ Delete \/ Advance \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Check \/ Rename \/ Open \/ Fill \/ Delete \/ Advance)

\* an image counts as kept under its rewritten form only when deletion was requested
NeverLost == \A p \in Listed : \/ \E q \in {p, OldOf(p)} : file[q] = <<"orig", p>>
                               \/ delete /\ \E q \in {p, OldOf(p), Dest(p)} : file[q] = <<"new", p>>
Result == res = "ok" => \A p \in Listed : file[Dest(p)] = <<"new", p>> /\ (~delete => file[OldOf(p)] = <<"orig", p>>) /\ (delete => file[OldOf(p)] = None)
Strangers == [][\A p \in Paths : file[p] = Stranger => file'[p] = Stranger]_vars
Ends == <>(res # "run")
=============================================================================
