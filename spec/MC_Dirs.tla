------------------------------ MODULE MC_Dirs -------------------------------
(***************************************************************************)
(* Recursive listing over every graph of T directories of up to two items: *)
(* it ends, and it succeeds only when no directory is found along two      *)
(* ways.  Every graph is printed, built as an image and listed for real.   *)
(***************************************************************************)
EXTENDS XRead, TLC, Json
CONSTANTS Shapes
VARIABLES G, todo, done, count, res
vars == <<G, todo, done, count, res>>

Tab(I) == {<<>>} \cup {<<a>> : a \in I} \cup {<<a, b>> : a \in I, b \in I}
Graphs3 == {<<a, b, c>> : a \in {<<x, y>> : x \in {"f", "1", "2", "3"}, y \in {"e", "1", "2", "3"}},
                          b \in Tab({"f", "1", "2", "3", "x"}) , c \in {<<>>, <<"f">>, <<"1">>, <<"2">>, <<"3">>, <<"f", "2">>}}
Graphs3t == {<<a, b, c>> : a \in Tab({"f", "e", "2", "3", "1"}), b \in Tab({"f", "1", "2", "3", "x"}),
                           c \in Tab({"f", "1", "2", "3"})}
Init == /\ G \in Shapes
        /\ todo = <<1>> /\ done = {} /\ count = 0 /\ res = "run"
        /\ PrintT("SCEN " \o ToJson(G))

RECURSIVE Push(_, _)
Push(s, l) == IF l = <<>> THEN s ELSE Push(IF TabIx(Head(l)) = 0 /\ Head(l) # "x" THEN s
                                           ELSE Append(s, IF Head(l) = "x" THEN -1 ELSE TabIx(Head(l))), Tail(l))
Step ==
  /\ res = "run"
  /\ UNCHANGED G
  /\ IF todo = <<>> THEN res' = "ok" /\ UNCHANGED <<todo, done, count>>
     ELSE LET t == todo[Len(todo)]
              rest == SubSeq(todo, 1, Len(todo) - 1)
          IN  IF t = -1 \/ (t \in done /\ Len(G[t]) > 0) THEN res' = "err" /\ UNCHANGED <<todo, done, count>>
              ELSE /\ todo' = Push(rest, G[t])
                   /\ done' = done \cup {t}
                   /\ count' = count + Len(G[t])
                   /\ UNCHANGED res
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == count <= 2 * Len(G)
Right == /\ res = "ok" => ~DShared(G) /\ ~DOutside(G) /\ count = DCount(G, DReach(G))
         /\ res = "err" => DShared(G) \/ DOutside(G)
Finishes == <>(res # "run")
=============================================================================
