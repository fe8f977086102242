------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Judges what the code was recorded doing: every line of trace.ndjson is  *)
(* one observed behaviour {k,t,v,pv,st,line,msg,obs,pr,rt}; it is accepted *)
(* when it is the behaviour that the specification gives for that text.    *)
(* The judgement names every aspect in which they differ.                  *)
(***************************************************************************)
EXTENDS Vectors

Trace == ndJsonDeserialize("trace.ndjson")
ASSUME TLCSet(1, Trace)
VARIABLE i
\* negative: a block of records not yet opened
Init == i \in {-b : b \in 1..(Len(TLCGet(1)) \div 50 + 1)}
Next == i < 0 /\ i' \in ((-i - 1) * 50 + 1)..(IF -i * 50 < Len(TLCGet(1)) THEN -i * 50 ELSE Len(TLCGet(1)))
Spec == Init /\ [][Next]_i

Differs(a, want, got) == IF want = got THEN <<>> ELSE <<[a |-> a, want |-> ToString(want), got |-> ToString(got)]>>
\* code: r(ead back) "value", "text" or why not
RtBad(x, y, j) == x.st = "ok" /\ CASE x.rt[j].r = "value" -> y.rt[j].r # "value"
                                   [] x.rt[j].r = "text" -> y.rt[j].r \notin {"value", "text"}
                                   [] OTHER -> FALSE
Verdict(y) ==
  LET x == Vec(y.k, y.t, y.v, y.pv, IF "rt" \in DOMAIN y THEN 2 ELSE 0, "")
      known == /\ x.st = "err" /\ y.st = "err" /\ x.lost > 0 /\ y.line = x.line - x.lost
      bad == IF y.st = "panic" THEN <<[a |-> "panic", want |-> x.st, got |-> y.msg]>>
             ELSE IF x.st # y.st THEN <<[a |-> "st", want |-> x.st, got |-> y.st]>>
             ELSE CASE x.st = "err" -> Differs("msg", x.msg, y.msg)
                                        \o (IF known THEN <<>> ELSE Differs("line", x.line, y.line))
                    [] x.st = "ok" -> Differs("obs", x.obs, y.obs) \o Differs("pr", x.pr, y.pr)
                                        \o (IF "rt" \in DOMAIN y /\ \E j \in 1..Len(x.rt) : RtBad(x, y, j)
                                            THEN <<[a |-> "rt", want |-> ToString(x.rt), got |-> ToString(y.rt)]>> ELSE <<>>)
                    [] OTHER -> <<>>
  IN [k |-> y.k, t |-> y.t, v |-> y.v, st |-> x.st, known |-> known, bad |-> bad]
Behaviour == i > 0 => Emit(Verdict(TLCGet(1)[i]))
=============================================================================
