------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* Lines that are made from templates: the fields of a line with the       *)
(* domain of each, and which of the values are valid on their own.         *)
(***************************************************************************)
EXTENDS Pools

CONSTANTS Templates,   \* sequence of [k, pre, dom, sep, suf, extra, vs]
          Vs,          \* versions read
          Good         \* only valid deviations

\* the text of field i: a value of its domain or, above those, the text of field x - Len(domain)
Value(t, g, i) ==
  LET n == Len(t.dom[i]) j == g[i] - n
  IN IF g[i] <= n THEN t.dom[i][g[i]] ELSE IF g[j] <= Len(t.dom[j]) THEN t.dom[j][g[j]] ELSE t.dom[j][1]
LineOf(t, g, c, e) ==
  t.pre \o Join([i \in 1..c |-> Value(t, g, i)], t.sep) \o (IF e = 0 THEN "" ELSE t.extra[e])
    \o (IF c = Len(t.dom) THEN t.suf ELSE "")

\* the deviations of template t that are valid on their own at version v
Reads(t, v, g, c, e) == Parse(t.k, LineOf(t, g, c, e), v).st = "ok"
Ones(t) == [i \in 1..Len(t.dom) |-> 1]
Tabulated ==
  IF ~Good THEN <<>>
  ELSE TLCEval([p \in 1..Len(Templates) |-> LET t == Templates[p] n == Len(t.dom) IN
         TLCEval([v \in t.vs \cap Vs |->
            [val |-> TLCEval([i \in 1..n |-> TLCEval({x \in 2..Len(t.dom[i]) : Reads(t, v, [Ones(t) EXCEPT ![i] = x], n, 0)})]),
             cpy |-> TLCEval({<<i, j>> \in (1..n) \X (1..n) : i # j /\ Reads(t, v, [Ones(t) EXCEPT ![i] = Len(t.dom[i]) + j], n, 0)}),
             cut |-> TLCEval({c \in 0..(n - 1) : Reads(t, v, Ones(t), c, 0)}),
             ext |-> TLCEval({e \in 1..Len(t.extra) : Reads(t, v, Ones(t), n, e)})]])])
\* (computed once: TLC does not keep the values of definitions that recursive operators stand in)
ASSUME TLCSet(7, Tabulated)
GoodTab == TLCGet(7)
=============================================================================
