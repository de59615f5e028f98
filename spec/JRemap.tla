------------------------------- MODULE JRemap -------------------------------
(***************************************************************************)
(* Judges one overlay built by the real code.  hosts: Seq of [p, d, h,     *)
(* pos]; rules as in XRemap; res; views: Seq of [how, nodes: Seq of        *)
(* [p, d, h]], the same overlay seen through the library's listing, a      *)
(* packed image, an image packed from a generated image spec, ...; dry:    *)
(* Seq of [how, l: Seq of [from, to]].  Without rules (none given, or some *)
(* that cannot be followed) it must be refused without writing anything.   *)
(***************************************************************************)
EXTENDS XRemap, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
Range(s) == {s[k] : k \in 1..Len(s)}
Verdict(e) ==
  LET H == e.hosts
      T == [k \in 1..Len(H) |-> Target(e.rules, H[k].p)]
      View(k) ==
        LET I == Range(e.views[k].nodes)
            how == e.views[k].how
        IN  Fail(Unique(I) /\ Cardinality(I) = Len(e.views[k].nodes), "C11_once_" \o how)
            \cup Fail(Justified(H, T, I), "C11_only_selected_" \o how)
            \cup Fail(Complete(H, T, I), "C11_all_selected_" \o how)
            \cup UNION {LET D == Range(e.dry[j].l) IN
                        Fail(DryFiles(H, T, I, D) /\ Cardinality(D) = Len(e.dry[j].l), "C11_dry_run_" \o how)
                        \cup Fail(DryDirs(H, T, I, D), "C11_dry_run_dirs_" \o how) : j \in 1..Len(e.dry)}
      \* "." and ".." are not names; where a rule would produce them nothing is promised
      odd == \E a \in Claims(T) : \E k \in 1..Len(T[a].p) : T[a].p[k] \in {<<46>>, <<46, 46>>}
  IN  IF e.rules = <<>> THEN Fail(e.res = "refused", "C11_refused")
      ELSE IF odd THEN {} ELSE Fail(e.res = "ok", "C11_accepted")
      \cup Fail(\A k \in 1..Len(e.views) : Range(e.views[k].nodes) = Range(e.views[1].nodes), "C11_agree")
      \cup (IF e.res = "ok" THEN UNION {View(k) : k \in 1..Len(e.views)} ELSE {})
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
