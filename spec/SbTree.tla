------------------------------- MODULE SbTree -------------------------------
(***************************************************************************)
(* Nesting of storyboard commands.  A command indented by k marks belongs  *)
(* to the last command of depth k-1, which must be a loop or a trigger; a  *)
(* command indented by one mark belongs to the event itself.               *)
(***************************************************************************)
EXTENDS Commands

PushOk(t) == [ok |-> TRUE, msg |-> "", t |-> t]
PushErr(want, got) == [ok |-> FALSE, t |-> <<>>,
                       msg |-> "Invalid indentation, expected " \o ToString(want) \o ", got " \o ToString(got)]

\* put c into the nested commands of the last command of q, which sit at depth d (d = 2 first)
RECURSIVE PushDeep(_, _, _, _)
PushDeep(q, c, indent, d) ==
  LET last == q[Len(q)]
  IN IF ~Nests(last) THEN PushErr(1, indent)
     ELSE IF d = indent THEN PushOk([q EXCEPT ![Len(q)].kids = Append(@, c)])
     ELSE IF last.kids = <<>> THEN PushErr(d - 2, indent)
     ELSE LET r == PushDeep(last.kids, c, indent, d + 1)
          IN IF r.ok THEN PushOk([q EXCEPT ![Len(q)].kids = r.t]) ELSE r
\* add command c, indented by `indent`, to the commands q of an event
Push(q, c, indent) ==
  IF indent = 1 THEN PushOk(Append(q, c))
  ELSE IF q = <<>> \/ indent = 0 THEN PushErr(1, indent)
  ELSE PushDeep(q, c, indent, 2)

\* commands with their depth, in the order in which they are written
RECURSIVE Flat(_, _, _)
Flat(q, i, d) == IF i > Len(q) THEN <<>>
                 ELSE <<[d |-> d, c |-> q[i]]>> \o Flat(q[i].kids, 1, d + 1) \o Flat(q, i + 1, d)
TreeText(q, vars) == LET f == Flat(q, 1, 1)
                     IN [i \in 1..Len(f) |-> Repeat(" ", f[i].d) \o CmdText(f[i].c, vars)]
TreeObs(q) == LET f == Flat(q, 1, 1)
              IN [i \in 1..Len(f) |-> "+" \o ToString(f[i].d) \o "|" \o CmdObs(f[i].c)]

\* every command is where its depth says: only loops and triggers have nested commands
RECURSIVE WellNested(_)
WellNested(q) == \A i \in 1..Len(q) : (q[i].kids # <<>> => Nests(q[i])) /\ WellNested(q[i].kids)
=============================================================================
