------------------------------- MODULE JGuard -------------------------------
(***************************************************************************)
(* Judges one packing command for what it did to the file system.          *)
(*  fs: Seq of [p, t, to] before; cwd; src, out: the paths given; tgt: the *)
(*  file a successful run writes; guarded: the command refuses harmful     *)
(*  outputs; valid: the source can be packed; res; changed: paths whose    *)
(*  object was created, changed or removed.                                *)
(***************************************************************************)
EXTENDS XPaths, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}
FsOf(e) == [p \in {e.fs[k].p : k \in 1..Len(e.fs)} |->
             LET k == CHOOSE k \in 1..Len(e.fs) : e.fs[k].p = p IN [t |-> e.fs[k].t, to |-> e.fs[k].to]]
Verdict(e) ==
  LET fs == FsOf(e)
      S == Meaning(fs, e.cwd, e.src)
      O == Place(fs, e.cwd, e.out)
      T == Place(fs, e.cwd, e.tgt)
      harm == e.guarded /\ (Harmful(fs, e.cwd, e.src, e.out) \/ Harmful(fs, e.cwd, e.src, e.tgt))
      plain == O # None /\ T # None /\ ~(O \in DOMAIN fs /\ fs[O].t = "d") /\ ~(T \in DOMAIN fs /\ fs[T].t = "d")
      ch == {e.changed[k] : k \in 1..Len(e.changed)}
  IN  Fail(harm => e.res = "err", "C14_refused")
      \cup Fail(harm => ch = {}, "C14_before_writing")
      \cup Fail(~(e.guarded /\ ~harm /\ S # None /\ plain /\ e.valid) \/ e.res = "ok", "C14_accepted")
      \cup Fail(e.guarded => ~\E p \in ch : S # None /\ Within(S, p), "C14_source")
      \cup Fail(\A p \in ch : p = T, "C14_only_output")
      \cup Fail(e.res = "ok" => T \in ch \/ ~plain, "C14_output_written")
      \cup Fail(e.res \in {"ok", "err"}, "C14_panic")
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
