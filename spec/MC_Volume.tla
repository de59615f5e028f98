----------------------------- MODULE MC_Volume ------------------------------
(* Probing candidate by candidate finds exactly Chosen; every image shape is printed and built. *)
EXTENDS XVolume, TLC, Json
VARIABLES cand, pc, found

Init == /\ cand \in [Cands -> States] /\ Possible(cand)
        /\ pc = 1 /\ found = 0
        /\ PrintT("SCEN " \o ToJson(cand))
Next == /\ pc <= 4 /\ found = 0
        /\ IF cand[pc] = "full" THEN found' = pc ELSE found' = 0
        /\ pc' = pc + 1 /\ cand' = cand

Right == (pc > 4 \/ found # 0) => found = Chosen(cand)
=============================================================================
