------------------------------ MODULE Compose -------------------------------
(***************************************************************************)
(* An editor that appends pieces (lines, tokens or single characters).     *)
(* Every sequence of at most MaxLen pieces of a task's alphabet is         *)
(* reached, with every kind of line end and of ending; each state is one   *)
(* text, read as a file of version `ver`.                                  *)
(*                                                                         *)
(* A task is [k, start, alpha, glues, ends, vs, n]:                        *)
(*   k      what the text is: a section, "osb" or "doc"                    *)
(*   start  text in front of the pieces                                    *)
(*   alpha  the pieces                                                     *)
(*   glues  what stands between pieces (line ends; "" for characters)      *)
(*   ends   what stands after the last piece                               *)
(*   vs     versions;  n: how many pieces                                  *)
(***************************************************************************)
EXTENDS Vectors

CONSTANTS Tasks,       \* sequence of tasks
          Less,        \* how many pieces fewer than each task asks for
          Judge        \* round trips: 0 none, 1 for the version read, 2 for every version written
VARIABLES task, ps, ver, glue, fin
vars == <<task, ps, ver, glue, fin>>

T == Tasks[task]
TextOf == T.start \o Join(MapSeq(ps, LAMBDA p : T.alpha[p]), glue) \o fin
Init == /\ task \in 1..Len(Tasks)
        /\ ps = <<>>
        /\ ver \in Tasks[task].vs
        /\ glue \in Tasks[task].glues
        /\ fin \in Tasks[task].ends
Next == /\ Len(ps) < T.n - Less
        /\ \E p \in 1..Len(T.alpha) : ps' = Append(ps, p)
        /\ UNCHANGED <<task, ver, glue, fin>>
Spec == Init /\ [][Next]_vars

Targets == IF Len(ps) <= 1 THEN AllVersions ELSE IF ver = 14 THEN <<14>> ELSE <<ver, 14>>
Vector == Vec(T.k, TextOf, ver, Targets, Judge, "")

\* a list section reads its lines one after another: its first error is the first
\* line that cannot follow the lines above it, and stays so whatever follows
Prefix(x) ==
  x.st = "err" /\ T.k \in {"Colours", "TimingPoints", "HitObjects", "Events"} =>
    LET ls == Lines(TextOf)
    IN /\ x.line < Len(ls)
       /\ Parse(T.k, Join(SubSeq(ls, 1, x.line), "\n"), ver).st = "ok"
       /\ LET r == Parse(T.k, Join(SubSeq(ls, 1, x.line + 1), "\n"), ver)
          IN r.st = "err" /\ r.line = x.line /\ r.msg = x.msg
\* the line of an error is a line of the text
Located(x) == x.st = "err" => x.line <= LfCount(TextOf)
Behaviour == LET x == Vector IN Emit(x) /\ VecStable(x) /\ (Judge > 0 => SameInFile(x)) /\ Prefix(x) /\ Located(x)
=============================================================================
