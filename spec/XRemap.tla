------------------------------- MODULE XRemap -------------------------------
(***************************************************************************)
(* Map rules: which host entries an image built with rules holds, where,   *)
(* and which of several entries for one image path stays.                  *)
(*                                                                         *)
(* Characters are code points.  A host path is a sequence of names; rules  *)
(* see it as text, joined with "/".  A glob is a sequence of tokens        *)
(*   [k: "lit", s]        the text s                                       *)
(*   [k: "star"]          any text without "/"; as long as possible        *)
(*   [k: "one"]           one character but "/"                            *)
(*   [k: "class", s, neg] one character of (not of) s, but "/"             *)
(*   [k: "alt", b]        one of the token sequences b, in that order      *)
(*   [k: "dirs"]          "**" before "/": nothing or whole directories    *)
(*   [k: "rest"]          "/**" at the end: nothing, or "/" and the rest   *)
(*   [k: "all"]           "**" alone                                       *)
(* Every token but a literal is a match that "{n}" can refer to.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Slash == 47

RECURSIVE Join(_)
Join(p) == IF Len(p) = 0 THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<Slash>> \o Join(Tail(p))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

Down(hi, lo) == [n \in 1..(IF hi >= lo THEN hi - lo + 1 ELSE 0) |-> hi - n + 1]

RECURSIVE RunEnd(_, _)
RunEnd(s, j) == IF j > Len(s) \/ s[j] = Slash THEN j ELSE RunEnd(s, j + 1)

(* Where a token that starts at j may end (position after it), in order of preference. *)
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _)
Ends(t, s, j) ==
  CASE t.k = "lit"   -> IF j + Len(t.s) - 1 <= Len(s) /\ SubSeq(s, j, j + Len(t.s) - 1) = t.s THEN <<j + Len(t.s)>> ELSE <<>>
    [] t.k = "star"  -> Down(RunEnd(s, j), j)
    [] t.k = "one"   -> IF j <= Len(s) /\ s[j] # Slash THEN <<j + 1>> ELSE <<>>
    [] t.k = "class" -> IF j <= Len(s) /\ s[j] # Slash /\ ((\E n \in 1..Len(t.s) : t.s[n] = s[j]) # t.neg) THEN <<j + 1>> ELSE <<>>
    [] t.k = "alt"   -> Flat([n \in 1..Len(t.b) |-> SeqEnds(t.b[n], s, j)])
    [] t.k = "dirs"  -> <<j>> \o SelectSeq(Down(Len(s) + 1, j + 1), LAMBDA e : s[e - 1] = Slash)
    [] t.k = "rest"  -> IF j = Len(s) + 1 \/ s[j] = Slash THEN <<Len(s) + 1>> ELSE <<>>
    [] t.k = "all"   -> <<Len(s) + 1>>
SeqEnds(ts, s, j) == IF ts = <<>> THEN <<j>>
                     ELSE LET es == Ends(ts[1], s, j) IN Flat([n \in 1..Len(es) |-> SeqEnds(Tail(ts), s, es[n])])

Captured(t, s, j, e) == IF t.k = "rest" /\ e > j THEN SubSeq(s, j + 1, e - 1) ELSE SubSeq(s, j, e - 1)

(* The preferred way the tokens match all of s from j: [ok, c: what the tokens matched] *)
No == [ok |-> FALSE, c |-> <<>>]
RECURSIVE Match(_, _, _), FirstOf(_, _, _, _)
Match(ts, s, j) ==
  IF ts = <<>> THEN (IF j = Len(s) + 1 THEN [ok |-> TRUE, c |-> <<>>] ELSE No)
  ELSE FirstOf(ts, s, j, Ends(ts[1], s, j))
FirstOf(ts, s, j, es) ==
  IF es = <<>> THEN No
  ELSE LET m == Match(Tail(ts), s, es[1]) IN
       IF m.ok THEN [ok |-> TRUE, c |-> (IF ts[1].k = "lit" THEN <<>> ELSE <<Captured(ts[1], s, j, es[1])>>) \o m.c]
       ELSE FirstOf(ts, s, j, Tail(es))

(* A rule is [neg, g: glob, rw: Seq of [k: "lit", s] or [k: "sub", n]]. *)
Matches(r, s) == Match(r.g, s, 1).ok

RECURSIVE Subst(_, _, _)
Subst(rw, s, c) ==
  IF rw = <<>> THEN <<>>
  ELSE (CASE rw[1].k = "lit" -> rw[1].s
          [] rw[1].n = 0 -> s
          [] rw[1].n \in 1..Len(c) -> c[rw[1].n]
          [] OTHER -> <<>>) \o Subst(Tail(rw), s, c)

RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF s[1] = Slash THEN <<cur>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(cur, s[1]))
RECURSIVE Strip(_)
Strip(cs) == IF cs # <<>> /\ cs[1] \in {<<>>, <<46>>, <<46, 46>>} THEN Strip(Tail(cs)) ELSE cs
PathOf(s) == SelectSeq(Strip(Split(s, <<>>)), LAMBDA c : c # <<>>)

(* The rules applied to a path they match: FALSE, or where it goes.  rules from k on, given what stands so far. *)
RECURSIVE Decide(_, _, _, _)
Decide(rules, s, k, d) ==
  IF k > Len(rules) THEN d
  ELSE LET m == Match(rules[k].g, s, 1) IN
       Decide(rules, s, k + 1,
              CASE ~m.ok -> d
                [] rules[k].neg -> [in |-> FALSE, t |-> <<>>]
                [] d.in -> d
                [] OTHER -> [in |-> TRUE, t |-> Subst(rules[k].rw, s, m.c)])

Prefix(p, n) == SubSeq(p, 1, n)
IsPrefix(q, p) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q

(* How much of a path, shortest from the end, a rule matches: 0 if none. *)
RECURSIVE Nearest(_, _, _)
Nearest(rules, p, n) == IF n = 0 THEN 0
  ELSE IF \E k \in 1..Len(rules) : Matches(rules[k], Join(Prefix(p, n))) THEN n ELSE Nearest(rules, p, n - 1)

Drop(p, n) == SubSeq(p, n + 1, Len(p))
(* Where a host path goes: [in, p] (an empty image path is the root, which needs no entry) *)
Target(rules, p) ==
  LET n == Nearest(rules, p, Len(p)) IN
  IF n = 0 THEN [in |-> FALSE, p |-> <<>>]
  ELSE LET d == Decide(rules, Join(Prefix(p, n)), 1, [in |-> FALSE, t |-> <<>>])
           t == IF n < Len(p) THEN d.t \o <<Slash>> \o Join(Drop(p, n)) ELSE d.t
       IN  IF d.in THEN [in |-> PathOf(t) # <<>>, p |-> PathOf(t)] ELSE [in |-> FALSE, p |-> <<>>]

(***************************************************************************)
(* Hosts: a sequence H of [p, d, h, pos]; pos is the place in the listing  *)
(* of the parent directory (all 0: order unknown).  Any walk from the root *)
(* that respects the listings sees a before b if Before(H, a, b).          *)
(***************************************************************************)
Before(H, a, b) ==
  \/ IsPrefix(H[a].p, H[b].p) /\ a # b
  \/ \E e \in 1..Len(H) : /\ Len(H[e].p) = Len(H[a].p) /\ IsPrefix(H[e].p, H[b].p)
                          /\ Prefix(H[e].p, Len(H[e].p) - 1) = Prefix(H[a].p, Len(H[a].p) - 1)
                          /\ H[a].pos < H[e].pos

(* T[a]: target of host a.  I: set of image nodes [p, d, h]; D: set of dry-run lines [from, to] *)
Claims(T) == {a \in DOMAIN T : T[a].in}
NodeAt(I, q) == {n \in I : n.p = q}

\* every node of the image has a reason to be there
Justified(H, T, I) == \A n \in I :
  IF n.d THEN \E a \in Claims(T) : IsPrefix(n.p, T[a].p) /\ (T[a].p = n.p => H[a].d)
  ELSE \E a \in Claims(T) : T[a].p = n.p /\ ~H[a].d /\ H[a].h = n.h
\* every entry the rules select is in its place, or the place was taken before it
Present(H, T, I, a) == \E n \in NodeAt(I, T[a].p) : n.d = H[a].d /\ (H[a].d \/ n.h = H[a].h)
Taken(H, T, I, a) == \E b \in Claims(T) \ {a} :
  /\ ~Before(H, a, b)
  /\ \/ T[b].p = T[a].p /\ Present(H, T, I, b)                              \* another entry at that path
     \/ IsPrefix(T[a].p, T[b].p) /\ T[a].p # T[b].p /\ ~H[a].d /\ Present(H, T, I, b)   \* a directory for another entry
     \/ IsPrefix(T[b].p, T[a].p) /\ T[a].p # T[b].p /\ ~H[b].d /\ Present(H, T, I, b)   \* a file where a directory is needed
Complete(H, T, I) == \A a \in Claims(T) : Present(H, T, I, a) \/ Taken(H, T, I, a)
Unique(I) == \A n, m \in I : n.p = m.p => n = m

\* the dry run lists what the image holds
DryFiles(H, T, I, D) ==
  /\ \A n \in I : ~n.d => Cardinality({d \in D : d.to = n.p}) = 1
  /\ \A d \in D : \E a \in Claims(T) : H[a].p = d.from /\ T[a].p = d.to /\ Present(H, T, I, a)
DryDirs(H, T, I, D) == \A a \in Claims(T) :
  (H[a].d /\ \A b \in Claims(T) \ {a} : IsPrefix(T[a].p, T[b].p) => IsPrefix(H[a].p, H[b].p)) /\ Present(H, T, I, a)
     => [from |-> H[a].p, to |-> T[a].p] \in D
=============================================================================
