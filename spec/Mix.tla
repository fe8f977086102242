-------------------------------- MODULE Mix ---------------------------------
(***************************************************************************)
(* Texts in which many fields deviate at once.  A sample is a number; the  *)
(* number decides on the version, on how many lines there are, on the      *)
(* template of each and on the value of every field: values that are valid *)
(* on their own, now and then the text of another field, and in every      *)
(* fourth sample one value, valid or not, that is taken from its domain.   *)
(***************************************************************************)
EXTENDS Lines

CONSTANTS Samples,     \* how many
          MaxLines,    \* lines of a text
          Seed,
          Judge
VARIABLES sample, lane
vars == <<sample, lane>>

\* the i-th number below m that sample s draws
Mod == 32749
Draw(s, i, m) ==
  LET a == (s * 7919 + i * 613 + Seed * 101 + 29) % Mod
      b == (a * a + 3 * i + 1) % Mod
      c == (b * 211 + s + Seed) % Mod
      d == (c * c + 5 * i + (s \div 17)) % Mod
  IN d % m
Pick(q, s, i) == q[Draw(s, i, Len(q)) + 1]

Sorted(S) == [i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
\* the same tables as sequences
Sequenced == TLCEval([p \in 1..Len(Templates) |->
         TLCEval([v \in Templates[p].vs \cap Vs |->
            [val |-> TLCEval([i \in 1..Len(Templates[p].dom) |-> <<1>> \o TLCEval(Sorted(GoodTab[p][v].val[i]))]),
             cpy |-> TLCEval([i \in 1..Len(Templates[p].dom) |-> TLCEval(Sorted({x[2] : x \in {y \in GoodTab[p][v].cpy : y[1] = i}}))]),
             cut |-> TLCEval(Sorted(GoodTab[p][v].cut)),
             ext |-> TLCEval(Sorted(GoodTab[p][v].ext))]])])
ASSUME TLCSet(8, Sequenced)
Tab == TLCGet(8)
Vers == TLCEval(Sorted(UNION {Templates[p].vs \cap Vs : p \in 1..Len(Templates)}))
Usable == TLCEval([v \in {Vers[i] : i \in 1..Len(Vers)} |-> TLCEval(Sorted({p \in 1..Len(Templates) : v \in Templates[p].vs}))])

\* line j of sample s at version v; o: where its draws begin; bad: this line has a value from anywhere
LineAt(s, v, o, bad) ==
  LET p == Pick(Usable[v], s, o)
      t == Templates[p]
      n == Len(t.dom)
      g == Tab[p][v]
      b == IF bad THEN Draw(s, o + 1, n) + 1 ELSE 0
      F(i) == IF i = b THEN Draw(s, o + 2, Len(t.dom[i])) + 1
              ELSE IF Draw(s, o + 3 * i + 3, 8) < 2 THEN 1
              ELSE IF Draw(s, 5, 3) = 0 /\ Draw(s, o + 3 * i + 3, 8) = 2 /\ g.cpy[i] # <<>> THEN Len(t.dom[i]) + Pick(g.cpy[i], s, o + 3 * i + 4)
              ELSE Pick(g.val[i], s, o + 3 * i + 5)
      c == IF g.cut # <<>> /\ Draw(s, o + 60, 8) = 0 THEN Pick(g.cut, s, o + 61) ELSE n
      e == IF c = n /\ g.ext # <<>> /\ Draw(s, o + 62, 8) = 0 THEN Pick(g.ext, s, o + 63) ELSE 0
      \* a copy shows the value of the field it names, so that one may not be a copy itself
      f == [i \in 1..n |-> F(i)]
      f1 == [i \in 1..n |-> IF f[i] > Len(t.dom[i]) /\ f[f[i] - Len(t.dom[i])] > Len(t.dom[f[i] - Len(t.dom[i])]) THEN 1 ELSE f[i]]
  IN [p |-> p, t |-> LineOf(t, f1, c, e)]
\* a command is one of the object above it
Under(x, first) == LET k == Templates[x.p].pre IN IF first \/ ~Contains(k, "\n") THEN x.t ELSE From(x.t, SkipTo(k, 1, {"\n"}) + 1)
Sample(s) ==
  LET v == Pick(Vers, s, 1)
      m == Draw(s, 2, MaxLines) + 1
      bad == IF Draw(s, 3, 4) = 0 THEN Draw(s, 4, m) + 1 ELSE 0
  IN [v |-> v, t |-> Join([j \in 1..m |-> Under(LineAt(s, v, 100 * j, j = bad), j = 1)], "\n")]

\* (lanes: TLC gives each to another worker)
Lanes == 64
Init == sample = 0 /\ lane \in 0..(Lanes - 1)
Next == sample = 0 /\ sample' \in {s \in 1..Samples : s % Lanes = lane} /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars

K0 == Templates[1].k
Vector == LET x == Sample(sample) IN Vec(K0, x.t, x.v, IF x.v = 14 THEN <<14>> ELSE <<x.v, 14>>, Judge, "")
Behaviour == sample > 0 => LET x == Vector IN Emit(x) /\ VecStable(x) /\ (Judge > 0 => SameInFile(x))
=============================================================================
