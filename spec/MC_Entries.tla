----------------------------- MODULE MC_Entries -----------------------------
(***************************************************************************)
(* The search for a name and the walk over a table, as machines over every *)
(* pointer graph of N entries.  Both end whatever the graph; on search     *)
(* trees the search is exact and the walk complete; the walk succeeds only *)
(* when every entry is found along one way.  Every graph is printed, built *)
(* as an image and given to the real readers.                              *)
(***************************************************************************)
EXTENDS XRead, TLC, Json
CONSTANTS N, Orders, LT, RT, Emit, Bound
VARIABLES g, mode, q, cur, steps, stack, seen, res

vars == <<g, mode, q, cur, steps, stack, seen, res>>

Targets(S) == S
Key3 == { <<4, 2, 6>>, <<2, 4, 6>> }
Key3All == { <<4, 2, 6>>, <<2, 4, 6>>, <<6, 4, 2>>, <<2, 6, 4>>, <<4, 6, 2>>, <<6, 2, 4>> }
Key4 == { <<4, 2, 6, 8>>, <<2, 8, 4, 6>> }
LT3 == {None, 2, 3, Out, Blank}
RT3 == {None, 2, 3, Out}
LT4 == {None, 2, 3, 4, Out}
RT4 == {None, 2, 3, 4}
Graphs == {[k |-> k, l |-> l, r |-> r] : k \in Orders, l \in [1..N -> LT], r \in [1..N -> RT]}

Init == /\ g \in Graphs
        /\ mode \in {"search", "walk"}
        /\ q \in IF mode = "walk" THEN {0} ELSE 1..(2 * N + 1)
        /\ cur = 1 /\ steps = 0 /\ stack = <<1>> /\ seen = {} /\ res = "run"
        /\ (Emit /\ mode = "walk") => PrintT("SCEN " \o ToJson(g))

Search ==
  /\ mode = "search" /\ res = "run"
  /\ steps' = steps + 1
  /\ UNCHANGED <<g, mode, q, stack, seen>>
  /\ IF steps >= Bound THEN res' = "err" /\ UNCHANGED cur
     ELSE IF cur \notin Slots(g) THEN res' = (IF cur = Out THEN "err" ELSE "absent") /\ UNCHANGED cur
     ELSE IF g.k[cur] = q THEN res' = "found" /\ UNCHANGED cur
     ELSE /\ cur' = IF q < g.k[cur] THEN g.l[cur] ELSE g.r[cur]
          /\ res' = IF cur' = None THEN "absent" ELSE "run"

Walk ==
  /\ mode = "walk" /\ res = "run"
  /\ steps' = steps + 1
  /\ UNCHANGED <<g, mode, q, cur>>
  /\ IF stack = <<>> THEN res' = "ok" /\ UNCHANGED <<stack, seen>>
     ELSE LET t == stack[Len(stack)]
              rest == SubSeq(stack, 1, Len(stack) - 1)
          IN  IF t = Out \/ t \in seen THEN res' = "err" /\ UNCHANGED <<stack, seen>>
              ELSE IF t = Blank THEN stack' = rest /\ UNCHANGED <<seen, res>>
              ELSE /\ stack' = rest \o (IF g.l[t] = None THEN <<>> ELSE <<g.l[t]>>)
                                    \o (IF g.r[t] = None THEN <<>> ELSE <<g.r[t]>>)
                   /\ seen' = seen \cup {t}
                   /\ UNCHANGED res

Next == Search \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == steps <= Bound + 2 * N + 2
Exact == (mode = "search" /\ res # "run" /\ IsSearchTree(g)) =>
            IF SlotOf(g, q) = None THEN res = "absent" ELSE res = "found" /\ cur = SlotOf(g, q)
Sound == (mode = "search" /\ res = "found") => cur \in Reach(g) /\ g.k[cur] = q
Complete == (mode = "walk" /\ res = "ok") => seen = Reach(g) /\ ~Shared(g)
Honest == (mode = "walk" /\ res = "err") => ~IsTreeGraph(g)
Finishes == <>(res # "run")
=============================================================================
