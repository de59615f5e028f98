------------------------------ MODULE MC_Guard ------------------------------
(***************************************************************************)
(* Every spelling of source and output over a file system with links, seen *)
(* from three working directories: the guard that compares what the paths  *)
(* mean never lets a write reach the source.  Guard "lexical" compares how *)
(* they are written; TLC shows how that fails.                             *)
(***************************************************************************)
EXTENDS XPaths, TLC, Json
CONSTANTS Guard, MaxLen
VARIABLES cwd, src, out, fs, res
vars == <<cwd, src, out, fs, res>>

N(t) == [t |-> t, to |-> [abs |-> FALSE, c |-> <<>>], v |-> 0]
L(a, c) == [t |-> "l", to |-> [abs |-> a, c |-> c], v |-> 0]
W == <<"w">>
FS0 == ( W :> N("d") @@ <<"w", "src">> :> N("d") @@ <<"w", "src", "sub">> :> N("d")
      @@ <<"w", "src", "f">> :> N("f") @@ <<"w", "src", "sub", "g">> :> N("f")
      @@ <<"w", "src.d">> :> N("d") @@ <<"w", "src.d", "h">> :> N("f") @@ <<"w", "srcx">> :> N("d")
      @@ <<"w", "img.iso">> :> N("f") @@ <<"w", "o">> :> N("d")
      @@ <<"w", "ls">> :> L(FALSE, <<"src">>) @@ <<"w", "li.iso">> :> L(FALSE, <<"img.iso">>)
      @@ <<"w", "o", "lsub">> :> L(FALSE, <<"..", "src", "sub">>) @@ <<"w", "o", "lw">> :> L(TRUE, W)
      @@ <<"w", "o", "old.iso">> :> N("f") )
Cwds == {W, <<"w", "o">>, <<"w", "src">>}
Up(c) == IF c = W THEN <<>> ELSE <<"..">>
Sources(c) == {[abs |-> FALSE, c |-> Up(c) \o s] : s \in
                 {<<"src">>, <<".", "src">>, <<"ls">>, <<"o", "lw", "src">>, <<"o", "..", "ls">>, <<"src", "sub", "..">>,
                  <<"o", "lsub">>, <<"src.d">>, <<"img.iso">>, <<"li.iso">>, <<"o", "lw", "img.iso">>}}
              \cup {[abs |-> TRUE, c |-> s] : s \in {<<"w", "src">>, <<"w", "ls">>, <<"w", "o", "lw", "img.iso">>}}
              \cup (IF c = <<"w", "src">> THEN {[abs |-> FALSE, c |-> <<".">>]} ELSE {})
Comps == {"src", "sub", "o", "ls", "lsub", "li.iso", "lw", "..", ".", "img.iso", "new.iso", "f", "srcx", "src.d", "src.iso", "old.iso"}
RECURSIVE Strings(_)
Strings(n) == IF n = 1 THEN {<<c>> : c \in Comps} ELSE Strings(n - 1) \cup {<<c>> \o s : c \in Comps, s \in Strings(n - 1)}
Outs(c) == {o \in {[abs |-> FALSE, c |-> s] : s \in Strings(MaxLen)} \cup {[abs |-> TRUE, c |-> <<"w">> \o s] : s \in Strings(MaxLen - 1)} :
               Place(FS0, c, o) \notin {None, <<>>}}
Init == /\ cwd \in Cwds
        /\ src \in Sources(cwd) /\ out \in Outs(cwd)
        /\ fs = FS0 /\ res = "run"
        /\ (Guard = "meaning" => PrintT("SCEN " \o ToJson([cwd |-> cwd, src |-> src, out |-> out])))
\* what a check that only looks at the text of the paths would say
LexPath(s) == (IF s.abs THEN <<>> ELSE cwd) \o SelectSeq(s.c, LAMBDA c : c # ".")
Refuse == IF Guard = "meaning" THEN Harmful(fs, cwd, src, out) ELSE Within(LexPath(src), LexPath(out))
Decide == /\ res = "run"
          /\ LET p == Place(fs, cwd, out) IN
             IF Refuse \/ (p \in DOMAIN fs /\ fs[p].t = "d") THEN res' = "err" /\ UNCHANGED fs
             ELSE /\ res' = "ok"
                  /\ fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN [N("f") EXCEPT !.v = 1] ELSE fs[q]]
          /\ UNCHANGED <<cwd, src, out>>
Next == Decide
Spec == Init /\ [][Next]_vars
SourceSafe == LET S == Meaning(FS0, cwd, src) IN
  \A q \in DOMAIN fs : Within(S, q) => q \in DOMAIN FS0 /\ fs[q] = FS0[q]
OnlyOutput == \A q \in DOMAIN fs : q \notin DOMAIN FS0 \/ fs[q] # FS0[q] => q = Place(FS0, cwd, out)
=============================================================================
