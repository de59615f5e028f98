------------------------------ MODULE JChecksum -----------------------------
(***************************************************************************)
(* The content checksum.  An event is a family of images: trees, a         *)
(* sequence of trees (sequences of [p: path as code points, d, c: content  *)
(* as bytes, or one token above 255 for a long one]), and obs, a sequence  *)
(* of [t: index of the tree, res, sum, via].                               *)
(* The canonical stream of a tree is its full paths in byte order, each    *)
(* followed by the bytes of the file.  refs gives, for every tree, the     *)
(* order of its nodes in that stream and the SHA3-256 of the stream (which *)
(* TLA+ cannot compute; the order it was computed in is checked here).     *)
(***************************************************************************)
EXTENDS XTree, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}

RECURSIVE Flat(_)
Flat(p) == IF p = <<>> THEN <<>> ELSE <<47>> \o Head(p) \o Flat(Tail(p))

\* Order of UTF-8 strings is the order of their code points
RECURSIVE Less(_, _, _)
Less(a, b, k) == IF k > Len(b) THEN FALSE
                 ELSE IF k > Len(a) THEN TRUE
                 ELSE IF a[k] = b[k] THEN Less(a, b, k + 1) ELSE a[k] < b[k]

Keyed(T) == [k \in 1..Len(T) |-> [f |-> Flat(T[k].p), d |-> T[k].d, c |-> T[k].c]]
Canon(T) == SortSeq(Keyed(T), LAMBDA a, b : Less(a.f, b.f, 1))
RECURSIVE Cat(_, _)
Cat(S, k) == IF k = 0 THEN <<>> ELSE Cat(S, k - 1) \o S[k].f \o S[k].c
Stream(T) == LET S == TLCEval(Canon(T)) IN Cat(S, Len(S))

Verdict(e) ==
  LET st == TLCEval([t \in 1..Len(e.trees) |-> TLCEval(Stream(e.trees[t]))])
      O == e.obs
      good(x) == O[x].res = "ok"
  IN  Fail(\A x \in 1..Len(O) : O[x].res = (IF O[x].cut THEN "err" ELSE "ok"), "C09_result")
      \cup Fail(\A x, y \in 1..Len(O) : good(x) /\ good(y) /\ O[x].t = O[y].t => O[x].sum = O[y].sum, "C09_layout")
      \cup Fail(\A x, y \in 1..Len(O) : good(x) /\ good(y) /\ st[O[x].t] # st[O[y].t] => O[x].sum # O[y].sum, "C09_differs")
      \cup Fail(\A x \in 1..Len(O) : good(x) => O[x].sum = e.refs[O[x].t].sum, "C09_canonical")
      \cup Fail(\A t \in 1..Len(e.trees) : LET K == Keyed(e.trees[t]) IN
                  [k \in 1..Len(e.refs[t].ord) |-> K[e.refs[t].ord[k]]] = Canon(e.trees[t]), "TOOL_order")
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
