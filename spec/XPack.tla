------------------------------- MODULE XPack --------------------------------
(***************************************************************************)
(* Packing as a sequence of operations that may fail or be cut short.      *)
(*   list every directory; for every directory write its table and copy    *)
(*   its files (a copy may be interrupted half way); write the descriptor; *)
(*   pad.  Order = "last": the descriptor comes after everything else.     *)
(*   Order = "first" is the broken variant TLC must refute.                *)
(* Tree: function from directory to the set of its files; a directory is   *)
(* listed before it is written.  A fault makes the operation fail without  *)
(* (or with half of) its effect; the run must then end with an error.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dirs, MaxFiles, Order
VARIABLES tree, pc, todo, disk, desc, padded, faults, res
vars == <<tree, pc, todo, disk, desc, padded, faults, res>>

Regions == {<<d, 0>> : d \in Dirs} \cup {<<d, f>> : d \in Dirs, f \in 1..MaxFiles}
Files(d) == 1..tree[d]
NeededOf == UNION {{<<d, 0>>} \cup {<<d, f>> : f \in Files(d)} : d \in Dirs}

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Plan(t) ==
  LET data == LET RECURSIVE P(_)
                  P(D) == IF D = <<>> THEN <<>>
                          ELSE << <<"table", Head(D), 0>> >> \o [k \in 1..t[Head(D)] |-> <<"file", Head(D), k>>] \o P(Tail(D))
              IN  P(SeqOf(Dirs))
      lists == [k \in 1..Cardinality(Dirs) |-> <<"list", SeqOf(Dirs)[k], 0>>]
      d == << <<"desc", 0, 0>> >>
      tail == << <<"pad", 0, 0>> >>
  IN  IF Order = "last" THEN lists \o data \o d \o tail ELSE lists \o d \o data \o tail

Init == /\ tree \in [Dirs -> 0..MaxFiles]
        /\ pc = 1 /\ todo = Plan(tree)
        /\ disk = [r \in Regions |-> "none"] /\ desc = "none" /\ padded = FALSE
        /\ faults = 0 /\ res = "run"

Effect(o, how) ==
  CASE o[1] = "list" -> UNCHANGED <<disk, desc, padded>>
    [] o[1] \in {"table", "file"} -> disk' = [disk EXCEPT ![<<o[2], o[3]>>] = how] /\ UNCHANGED <<desc, padded>>
    [] o[1] = "desc" -> desc' = how /\ UNCHANGED <<disk, padded>>
    [] o[1] = "pad" -> padded' = (how = "full") /\ UNCHANGED <<disk, desc>>
Do == /\ res = "run" /\ pc <= Len(todo)
      /\ Effect(todo[pc], "full") /\ pc' = pc + 1
      /\ UNCHANGED <<tree, todo, faults, res>>
Done == res = "run" /\ pc > Len(todo) /\ res' = "ok" /\ UNCHANGED <<tree, pc, todo, disk, desc, padded, faults>>
Fault == /\ res = "run" /\ pc <= Len(todo)
         /\ (UNCHANGED <<disk, desc, padded>> \/ Effect(todo[pc], "half"))
         /\ faults' = 1 /\ res' = "err" /\ UNCHANGED <<tree, pc, todo>>
Crash == /\ res = "run"
         /\ (UNCHANGED <<disk, desc, padded>> \/ (pc <= Len(todo) /\ Effect(todo[pc], "half")))
         /\ res' = "crash" /\ UNCHANGED <<tree, pc, todo, faults>>
Next == Do \/ Done \/ Fault \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Do \/ Done)

Intact == \A r \in NeededOf : disk[r] = "full"
Accepted == desc = "full"
NeverMistaken == /\ Accepted => Intact
                 /\ res = "ok" => Accepted /\ Intact /\ faults = 0
                 /\ faults > 0 => res # "ok"
Ends == <>(res # "run")
=============================================================================
