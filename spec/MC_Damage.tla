----------------------------- MODULE MC_Damage ------------------------------
(***************************************************************************)
(* A reader of a small image, step by step, over every set of unreadable   *)
(* sectors and, in between, one read that fails for once.  Swallow is a    *)
(* reader that takes an unreadable part of a directory for its end, Greedy *)
(* one that looks at the whole image first: both must be refuted.          *)
(* Every set of bad sectors is printed and replayed against the library.   *)
(***************************************************************************)
EXTENDS XDamage, TLC, Json

CONSTANTS Swallow, Greedy

\* root 33-34: a, sub    sub 35-36: b, in    in 37: c
Im == [desc |-> 32,
       tabs |-> << [up |-> 0, secs |-> <<33, 34>>], [up |-> 1, secs |-> <<35, 36>>], [up |-> 2, secs |-> <<37>>] >>,
       files |-> << [tab |-> 1, secs |-> <<38, 39>>, used |-> 100], [tab |-> 2, secs |-> <<40>>, used |-> 2048],
                    [tab |-> 3, secs |-> <<41>>, used |-> 1] >>]
Sectors == 32..41
Op(k, t, f, lo, hi) == [k |-> k, t |-> t, f |-> f, lo |-> lo, hi |-> hi]
Ops == {Op("vol", 0, 0, 0, 0), Op("tree", 1, 0, 0, 0), Op("all", 1, 0, 0, 0), Op("read", 1, 1, 1, 1), Op("read", 1, 1, 2, 2)}
       \cup {Op(k, t, 0, 0, 0) : k \in {"list", "look"}, t \in 1..3}
       \cup {Op("read", Im.files[f].tab, f, 1, Len(Im.files[f].secs)) : f \in 1..3}

VARIABLES d, op, left, dir, res, faults
vars == <<d, op, left, dir, res, faults>>

\* sectors ascend on this image from parent to child and from table to file
TabSecs == 33..37
Init == /\ d \in [bad : SUBSET Sectors, cut : {<<1000, 0>>}]
        /\ op \in Ops
        /\ left = {c[1] : c \in Need(Im, op)} \cup (IF Greedy THEN Sectors ELSE {})
        /\ dir = {} /\ res = "" /\ faults = 0
        /\ op.k # "vol" \/ PrintT("SCEN " \o ToJson(d.bad))

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Done(r) == res' = r /\ left' = {} /\ dir' = dir
Read ==
  /\ res = "" /\ left # {}
  /\ LET s == Min(left) IN
     \E fail \in BOOLEAN :
       /\ fail => faults = 0
       /\ faults' = IF fail THEN 1 ELSE faults
       /\ IF s \in d.bad \/ fail
          THEN IF Swallow /\ s \in TabSecs \ {33}
               THEN dir' = dir \cup {s} /\ left' = left \ {s} /\ res' = res
               ELSE Done("err")
          ELSE left' = left \ {s} /\ UNCHANGED <<dir, res>>
  /\ UNCHANGED <<d, op>>
Finish ==
  /\ res = "" /\ left = {}
  /\ res' = IF dir = {} THEN "same" ELSE "diff"
  /\ UNCHANGED <<d, op, left, dir, faults>>
Next == Read \/ Finish \/ (res # "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Finish)

Safe == res # "" => Right(Im, d, IF faults = 0 THEN "lasting" ELSE "once", op, res)
Ends == <>(res # "")
=============================================================================
