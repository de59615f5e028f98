------------------------------- MODULE XPaths -------------------------------
(***************************************************************************)
(* A host file system with symbolic links, and what a spelled path means.  *)
(* fs: function from path (sequence of names below the root) to            *)
(*   [t: "d" | "f" | "l", to: spelling]                                    *)
(* What lies above the root is not modelled: paths leading there are None.   *)
(* A spelling is [abs: BOOLEAN, c: components, "." and ".." included].     *)
(***************************************************************************)
EXTENDS Integers, Sequences

None == <<"?none">>

\* where walking comps from directory at leads; links are followed, fuel bounds them
RECURSIVE Walk(_, _, _, _)
Walk(fs, at, comps, fuel) ==
  IF at = None \/ fuel = 0 THEN None
  ELSE IF comps = <<>> THEN at
  ELSE IF at # <<>> /\ (at \notin DOMAIN fs \/ fs[at].t # "d") THEN None
  ELSE LET c == Head(comps)
           p == Append(at, c)
       IN  IF c = "." THEN Walk(fs, at, Tail(comps), fuel)
           ELSE IF c = ".." THEN Walk(fs, IF at = <<>> THEN None ELSE SubSeq(at, 1, Len(at) - 1), Tail(comps), fuel)
           ELSE IF p \notin DOMAIN fs THEN None
           ELSE IF fs[p].t = "l" THEN Walk(fs, IF fs[p].to.abs THEN <<>> ELSE at, fs[p].to.c \o Tail(comps), fuel - 1)
           ELSE Walk(fs, p, Tail(comps), fuel)

\* the existing object a spelling names, or None
Meaning(fs, cwd, s) == Walk(fs, IF s.abs THEN <<>> ELSE cwd, s.c, 8)

\* the place a spelling names: an existing object, or a new name in an existing directory
Place(fs, cwd, s) ==
  LET m == Meaning(fs, cwd, s)
      k == Len(s.c)
      d == Walk(fs, IF s.abs THEN <<>> ELSE cwd, SubSeq(s.c, 1, k - 1), 8)
  IN  IF m # None THEN m
      ELSE IF k = 0 \/ d = None \/ s.c[k] \in {".", ".."} THEN None
      ELSE IF Append(d, s.c[k]) \in DOMAIN fs THEN None        \* a link that leads nowhere
      ELSE IF d # <<>> /\ (d \notin DOMAIN fs \/ fs[d].t # "d") THEN None
      ELSE Append(d, s.c[k])

Within(dir, p) == Len(p) >= Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir

(* Packing source s to output o would damage the source: o is the source   *)
(* or lies inside of it, wherever it is seen from.                         *)
Harmful(fs, cwd, s, o) ==
  LET ms == Meaning(fs, cwd, s)
      mo == Place(fs, cwd, o)
  IN  ms # None /\ mo # None /\ Within(ms, mo)
=============================================================================
