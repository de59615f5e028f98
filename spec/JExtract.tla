------------------------------ MODULE JExtract ------------------------------
(***************************************************************************)
(* Judges one extraction by the real tool.                                 *)
(*  img: the image, parsed; kind: "all" | "path"; sel: the path given;     *)
(*  pre, out: files below the destination before and after, [p, d, sz, h]; *)
(*  single: the destination itself when it is a file (h "" : it is not);   *)
(*  outside: everything else is as it was; res: how the command ended.     *)
(***************************************************************************)
EXTENDS XExtract, XLayout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Fail(c, n) == IF c THEN {} ELSE {n}

Nodes(s) == {[p |-> s[k].p, d |-> s[k].d, sz |-> s[k].sz, h |-> s[k].h] : k \in 1..Len(s)}
DecTree(img) == {[n EXCEPT !.p = DecPath(n.p)] : n \in TreeOf(img)}
Hit(T, e) == IF e.kind = "all" \/ e.sel = <<>> THEN {} ELSE Named(T, e.sel)

Verdict(e) ==
  LET T == DecTree(e.img)
      S == Hit(T, e)
      whole == e.kind = "all" \/ e.sel = <<>>
      missing == ~whole /\ S = {}
      file == ~whole /\ \E n \in S : ~n.d
      new == IF missing \/ file THEN {} ELSE IF whole THEN Below(T, <<>>) ELSE Below(T, e.sel)
      data == IF file THEN S ELSE new
      cut == \E n \in data : n.h = "TRUNCATED"
      unsafe == \E n \in new : Unsafe(Last(n.p))
      odd == \E n \in new : Last(n.p) = <<>> \/ \E k \in 1..Len(Last(n.p)) : Last(n.p)[k] = 0
      exp == Expected(Nodes(e.pre), new)
  IN  Fail(e.outside, "C16_escape")
      \cup Fail(unsafe => e.res # "ok", "C16_refused")
      \cup Fail(e.res \in {"ok", "err"}, IF unsafe \/ odd THEN "C16_panic" ELSE "C15_panic")
      \cup Fail(missing => e.res # "ok", "C15_missing")
      \cup Fail(cut => e.res # "ok", "C15_incomplete")
      \cup (IF missing \/ cut \/ unsafe \/ odd THEN {}
            ELSE Fail(e.res = "ok", "C15_result")
                 \cup (IF e.res # "ok" THEN {}
                       ELSE IF file THEN Fail(\E n \in S : e.single.h = n.h /\ e.single.sz = n.sz, "C15_file")
                       ELSE Fail(Nodes(e.out) = exp, "C15_tree")))
JInit == i = 0
JNext == /\ i < Len(Trace) /\ i' = i + 1
         /\ LET V == Verdict(Trace[i + 1]) IN V = {} \/ PrintT(<<"BAD", i + 1, V>>)
=============================================================================
