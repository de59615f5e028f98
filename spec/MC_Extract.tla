----------------------------- MODULE MC_Extract -----------------------------
(***************************************************************************)
(* Extraction of every chain of three levels and every pair of siblings    *)
(* whose names come from an alphabet of ordinary and hostile ones: nothing *)
(* outside of the output directory is ever touched, whatever the order and *)
(* wherever it stops; it ends, successfully exactly when no name is        *)
(* unsafe, and then everything is there.  With Guard = FALSE the machine   *)
(* does not look at the names, and TLC shows the escape.                   *)
(***************************************************************************)
EXTENDS XExtract, TLC, Json
CONSTANT Guard
VARIABLES T, done, host, res
vars == <<T, done, host, res>>

Out == <<<<119>>, <<111>>>>      \* /w/o
\* "a" ".." "." "../e" "/w/e" "a/b" "..\e" "A" "a."
Alphabet == { <<97>>, DotDot, Dot, <<46, 46, 47, 101>>, <<47, 119, 47, 101>>, <<97, 47, 98>>, <<46, 46, 92, 101>>, <<46, 46, 46>>, <<97, 46>> }
Node(p, d) == [p |-> p, d |-> d]
Chains == UNION { UNION { {{Node(<<a>>, d)} : d \in BOOLEAN},
                  {{Node(<<a>>, TRUE), Node(<<a, b>>, d)} : b \in Alphabet, d \in BOOLEAN},
                  {{Node(<<a>>, TRUE), Node(<<a, b>>, TRUE), Node(<<a, b, c>>, d)} : b \in Alphabet, c \in Alphabet, d \in BOOLEAN},
                  {{Node(<<a>>, d), Node(<<b>>, e), Node(<<b, <<97>>>>, FALSE)} : b \in Alphabet \ {a}, d \in BOOLEAN, e \in {TRUE}} }
          : a \in Alphabet }

Init == /\ T \in Chains
        /\ done = {} /\ host = {} /\ res = "run"
        /\ Guard => PrintT("SCEN " \o ToJson([t |-> T]))
Step(n) ==
  /\ res = "run" /\ n \in T /\ n.p \notin done
  /\ Parent(n.p) \in done \cup {<<>>}
  /\ UNCHANGED T
  /\ IF Guard /\ Unsafe(Last(n.p)) THEN res' = "err" /\ UNCHANGED <<done, host>>
     ELSE /\ done' = done \cup {n.p}
          /\ host' = host \cup {LET RECURSIVE R(_, _)
                                    R(at, p) == IF p = <<>> THEN at ELSE R(Resolve(at, Head(p)), Tail(p))
                                IN  [p |-> R(Out, n.p), d |-> n.d]}
          /\ UNCHANGED res
Finish == /\ res = "run" /\ done = {n.p : n \in T}
          /\ res' = "ok" /\ UNCHANGED <<T, done, host>>
Crash == res = "run" /\ res' = "crash" /\ UNCHANGED <<T, done, host>>
Next == (\E n \in T : Step(n)) \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Contained == \A h \in host : Under(Out, h.p) /\ h.p # Out
Right == /\ res = "ok" => /\ \A n \in T : ~Unsafe(Last(n.p))
                          /\ host = {[p |-> Out \o n.p, d |-> n.d] : n \in T}
         /\ res = "err" => \E n \in T : Unsafe(Last(n.p))
\* a name is safe exactly when it leads to an entry of its own below any directory
Exact == \A n \in T : LET d == Out \o <<<<113>>>> IN
            ~Unsafe(Last(n.p)) <=> Resolve(d, Last(n.p)) = Append(d, Last(n.p))
Ends == <>(res # "run")
=============================================================================
