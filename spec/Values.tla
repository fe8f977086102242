------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Values that a program makes itself: events and storyboard commands      *)
(* built from their parts, and the list sections under edits of a list.    *)
(* The calls of these kinds of value, for the machine Api.                 *)
(***************************************************************************)
EXTENDS Sessions

Same(x) == Res(x, "none")

(* -------------------------------- events -------------------------------- *)
\* value: an event, as in Events; origins and layers are given by number
MePos(q) == IF q = "-" THEN NoPos ELSE MapSeq(Split(q, ";"), CanonDec)
MeCtors ==
  {O("video", <<t, p, q>>) : t \in {"7", "-2147483648"}, p \in {"v.avi", "v a.avi"}, q \in {"-", "1;2.50"}}
    \cup {O("break", <<"1", "2">>), O("bg", <<"3", "b.png", "-">>), O("colour", <<"4", "1", "2", "255">>),
          O("sprite4", <<"2", "1", "s.png", "-">>), O("anim5", <<"0", "9", "s a.png", "1;2">>), O("sample6", <<"12.50", "5", "w.wav", "-">>),
          O("Sprite", <<"2", "1", "a.png", "320;x">>), O("Animation", <<"4", "6", "a b.png", "1;2", "3", "4.50", "LoopOnce">>),
          O("Sample", <<"9", "3", "\"a.wav\"", "70">>), O("comment", <<" note ">>)}
    \cup Ops("parse", {<<"Video,5,v.avi", "14">>, <<"Break,24,48", "4">>, <<"Sprite,Fail,Centre,a.png,1,2", "14">>, <<"1,24,v.avi", "3">>})
MeEdits ==
  Ops("time", One({"0", "-24", "2147483647"})) \cup Ops("end", One({"0", "-2147483648"})) \cup Ops("path", One({"n.png", "n m.png"}))
    \cup Ops("pos", One({"-", "3;-4.5"})) \cup Ops("layer", One({"0", "1", "3"})) \cup Ops("origin", {<<"0", "y">>, <<"9", "n">>, <<"12", "y">>})
    \cup Ops("vol", One({"-", "0", "100"})) \cup {O("rgb", <<"9", "0", "7">>), O("text", <<"//x">>), O("text", <<"">>), O("delay", <<"0.10">>), O("loop", <<"LoopForever">>), O("nocmds", <<>>)}
    \cup Ops("frames", One({"0", "7"})) \cup Ops("cmd", One({"F,0,1,2,1", "L,5,2"}))
Made4 == {"sprite4", "anim5"}
MadeSb == {"Sprite", "Animation"}
\* an edit of field i
MeSet(x, i, t) == Res([x EXCEPT !.f[i] = t], "")
MeDo(x, o) ==
  CASE o.op = "video" -> Res(Ev("video", <<"1", o.a[1]>>, o.a[2], MePos(o.a[3])), "")
    [] o.op = "break" -> Res(Ev("break", <<"2">> \o o.a, "", NoPos), "")
    [] o.op = "bg" -> Res(Ev("bg", <<"0", o.a[1]>>, o.a[2], MePos(o.a[3])), "")
    [] o.op = "colour" -> Res(Ev("colour", <<"3">> \o o.a, "", NoPos), "")
    [] o.op = "sprite4" -> Res(Ev("sprite4", <<"4", o.a[1], o.a[2]>>, o.a[3], MePos(o.a[4])), "")
    [] o.op = "anim5" -> Res(Ev("anim5", <<"5", o.a[1], o.a[2]>>, o.a[3], MePos(o.a[4])), "")
    [] o.op = "sample6" -> Res(Ev("sample6", <<"6", CanonDec(o.a[1]), o.a[2], IF o.a[4] = "-" THEN "" ELSE o.a[4]>>, o.a[3], NoPos), "")
    [] o.op = "Sprite" -> Res(Ev("Sprite", <<"Sprite", LegacyLayers[Nat1(o.a[1])], o.a[2]>>, o.a[3], MePos(o.a[4])), "")
    [] o.op = "Animation" -> Res(Ev("Animation", <<"Animation", LegacyLayers[Nat1(o.a[1])], o.a[2], o.a[5], o.a[6], o.a[7]>>, o.a[3], MePos(o.a[4])), "")
    [] o.op = "Sample" -> Res(Ev("Sample", <<"Sample", o.a[1], o.a[2], o.a[4]>>, o.a[3], NoPos), "")
    [] o.op = "comment" -> Res(Ev("comment", o.a, "", NoPos), "")
    [] o.op = "parse" -> Res(ParseEvent(o.a[1], IntVal(o.a[2])), "")
    [] o.op = "time" -> IF x.kind \in {"bg", "video", "break", "colour", "Sample"} THEN MeSet(x, 2, o.a[1])
                        ELSE IF x.kind = "sample6" THEN MeSet(x, 2, CanonDec(o.a[1])) ELSE Same(x)
    [] o.op = "end" -> IF x.kind = "break" THEN MeSet(x, 3, o.a[1]) ELSE Same(x)
    [] o.op = "path" -> IF x.path = "" THEN Same(x) ELSE Res([x EXCEPT !.path = o.a[1]], "")
    [] o.op = "pos" -> IF x.kind \in {"bg", "video"} \cup Made4 \/ (x.kind \in MadeSb /\ o.a[1] # "-") THEN Res([x EXCEPT !.pos = MePos(o.a[1])], "") ELSE Same(x)
    [] o.op = "layer" -> IF x.kind \in Made4 THEN MeSet(x, 2, o.a[1])
                         ELSE IF x.kind \in {"sample6", "Sample"} THEN MeSet(x, 3, o.a[1])
                         ELSE IF x.kind \in MadeSb THEN MeSet(x, 2, LegacyLayers[Nat1(o.a[1])]) ELSE Same(x)
    [] o.op = "origin" -> IF x.kind \in Made4 /\ Len(o.a[1]) = 1 THEN MeSet(x, 3, o.a[1])
                          ELSE IF x.kind \in MadeSb THEN MeSet(x, 3, IF o.a[2] = "y" THEN o.a[1] ELSE LegacyOrigins[Nat1(o.a[1])]) ELSE Same(x)
    [] o.op = "vol" -> IF x.kind = "sample6" THEN MeSet(x, 4, IF o.a[1] = "-" THEN "" ELSE o.a[1])
                       ELSE IF x.kind = "Sample" /\ o.a[1] # "-" THEN MeSet(x, 4, o.a[1]) ELSE Same(x)
    [] o.op = "rgb" -> IF x.kind = "colour" THEN Res([x EXCEPT !.f = <<x.f[1], x.f[2]>> \o o.a], "") ELSE Same(x)
    [] o.op = "text" -> IF x.kind = "comment" THEN MeSet(x, 1, o.a[1]) ELSE Same(x)
    [] o.op = "frames" -> IF x.kind = "Animation" THEN MeSet(x, 4, o.a[1]) ELSE Same(x)
    [] o.op = "delay" -> IF x.kind = "Animation" THEN MeSet(x, 5, o.a[1]) ELSE Same(x)
    [] o.op = "loop" -> IF x.kind = "Animation" THEN MeSet(x, 6, o.a[1]) ELSE Same(x)
    [] o.op = "cmd" -> IF TakesCommands(x) THEN Res([x EXCEPT !.cmds = Append(@, ParseCommand(o.a[1]))], "") ELSE Same(x)
    [] o.op = "nocmds" -> IF TakesCommands(x) THEN Res([x EXCEPT !.cmds = <<>>], "") ELSE Same(x)
MeShown == <<3, 4, 5, 13, 14>>
MeObs(x) == Join(<<ObsEvents(<<x>>)>> \o MapSeq(MeShown, LAMBDA w : PrintEvents(<<x>>, w)), "\n=\n")
\* what is written is read back as one event that is written the same way, and is the same when no quotes were added
MeInv(x) ==
  \A i \in 1..Len(MeShown) :
    LET w == MeShown[i] t == PrintEvents(<<x>>, w) r == ParseEvents(t, w)
    IN EvWritten(x, w) => /\ r.st = "ok" /\ Len(r.v) = 1 /\ PrintEvents(r.v, w) = t
                          /\ w >= 5 /\ PathText(x.path) = x.path => r.v[1] = x
MeStep(x, o, y) == /\ y.kind = x.kind
                   /\ o.op \notin {"cmd", "nocmds"} => y.cmds = x.cmds
                   /\ o.op # "path" => y.path = x.path
                   /\ o.op # "pos" => y.pos = x.pos
                   /\ Cardinality({i \in 1..Len(x.f) : x.f[i] # y.f[i]}) <= (IF o.op = "rgb" THEN 3 ELSE 1)

(* ------------------------------- commands ------------------------------- *)
\* value: a command, as in Commands
CmEz == {"0", "34", "35", "-1"}
CmTimes == {<<"-", "-">>, <<"5", "-">>, <<"5", "7">>, <<"-", "7">>}
CmVals == [F |-> {<<"0.1">>, <<"0.1", "2", "x">>}, S |-> {<<"1">>}, R |-> {<<"1.50", "2">>}, MX |-> {<<"1", "-2">>}, MY |-> {<<"0">>},
           M |-> {<<"1", "2">>, <<"1", "2", "3">>, <<"1", "2", "3", "4">>}, V |-> {<<"1", "2", "3.0", "4", "5">>},
           C |-> {<<"1", "2", "3">>, <<"1", "2", "3", "4">>, <<"1", "2", "3", "4", "5">>, <<"1", "2", "3", "4", "5", "6">>}, P |-> {<<"H">>, <<"A", "V", "H">>}]
CmTriggers == {<<"Passing">>, <<"Failing">>, <<"-", "-", "-", "-">>, <<"All", "-", "-", "-">>, <<"Soft", "Drum", "Clap", "2">>, <<"-", "-", "Whistle", "0">>, <<"-", "Normal", "-", "7">>, <<"-", "-", "Finish", "-">>}
CmCtors == UNION {{O(k, <<e>> \o t \o q) : e \in CmEz, t \in CmTimes, q \in CmVals[k]} : k \in DOMAIN CmVals}
             \cup {O("L", <<s, n>>) : s \in {"-", "5"}, n \in {"0", "4294967295"}}
             \cup {O("T", t \o <<g>> \o q) : t \in CmTimes, g \in {"-", "3"}, q \in CmTriggers}
CmEdits == Ops("st", One({"-", "0", "-5"})) \cup Ops("et", One({"-", "-2147483648"})) \cup Ops("ez", One({"19"})) \cup {O("first", <<"9", "V">>)}
             \cup {O("more", <<"10", "11", "12", "H">>), O("count", <<"7">>), O("group", <<"-">>), O("group", <<"0">>)}
             \cup Ops("trigger", {<<"Passing">>, <<"Drum", "-", "-", "12">>}) \cup Ops("kid", One({"S,0,5,7,1", "L,1,2"}))
Tm(t) == IF t = "-" THEN "" ELSE t
CmTrig(q) == IF Len(q) = 1 THEN <<q[1], q[1]>> ELSE <<"HitSound" \o Join(MapSeq(q, Tm), ""), "HitSound/" \o Join(q, "/")>>
CmHeads == DOMAIN CmVals
\* the values with those added that a shortened last group stands for
CmFilled(c) == LET q == c.vals n == Len(q)
               IN CASE c.kind = "C" /\ n % 3 = 1 -> q \o <<q[n - 2], q[n - 1]>>
                    [] c.kind = "C" /\ n % 3 = 2 -> Append(q, q[n - 2])
                    [] OTHER -> q
CmDo(x, o) ==
  CASE o.op \in CmHeads -> LET q == SubSeq(o.a, 4, Len(o.a))
                           IN Res(Cmd(o.op, o.a[1], Tm(o.a[2]), Tm(o.a[3]), IF o.op \in {"C", "P"} THEN q ELSE Decs(q)), "")
    [] o.op = "L" -> Res(Cmd("L", "", Tm(o.a[1]), "", <<o.a[2]>>), "")
    [] o.op = "T" -> LET g == CmTrig(SubSeq(o.a, 4, Len(o.a))) IN Res(Cmd("T", "", Tm(o.a[1]), Tm(o.a[2]), <<g[1], Tm(o.a[3]), g[2]>>), "")
    [] o.op = "st" -> Res([x EXCEPT !.st = Tm(o.a[1])], "")
    [] o.op = "et" -> IF x.kind = "L" THEN Same(x) ELSE Res([x EXCEPT !.et = Tm(o.a[1])], "")
    [] o.op = "ez" -> IF x.kind \in CmHeads THEN Res([x EXCEPT !.ez = o.a[1]], "") ELSE Same(x)
    [] o.op = "first" -> IF x.kind \in CmHeads THEN Res([x EXCEPT !.vals[1] = IF x.kind = "P" THEN o.a[2] ELSE o.a[1]], "") ELSE Same(x)
    [] o.op = "more" -> CASE x.kind \in {"M", "V"} -> Same(x)  \* see pairs in Api
                          [] x.kind = "C" -> Res([x EXCEPT !.vals = CmFilled(x) \o <<o.a[1], o.a[2], o.a[3]>>], "")
                          [] x.kind = "P" -> Res([x EXCEPT !.vals = Append(@, o.a[4])], "")
                          [] x.kind \in CmHeads -> Res([x EXCEPT !.vals = Append(@, o.a[1])], "")
                          [] OTHER -> Same(x)
    [] o.op = "count" -> IF x.kind = "L" THEN Res([x EXCEPT !.vals[1] = o.a[1]], "") ELSE Same(x)
    [] o.op = "group" -> IF x.kind = "T" THEN Res([x EXCEPT !.vals[2] = Tm(o.a[1])], "") ELSE Same(x)
    [] o.op = "trigger" -> IF x.kind = "T" THEN LET g == CmTrig(o.a) IN Res([x EXCEPT !.vals = <<g[1], @[2], g[2]>>], "") ELSE Same(x)
    [] o.op = "kid" -> IF Nests(x) THEN Res([x EXCEPT !.kids = Append(@, ParseCommand(o.a[1]))], "") ELSE Same(x)
Var(n, t) == [name |-> n, value |-> t]
CmVars == << <<Var("a", "5")>>, <<Var("a", "1"), Var("b", "0,5")>>, <<Var("n", "Hit"), Var("m", "2")>>, <<Var("e", ""), Var("c", "7,")>> >>
CmObs(x) == Join(<<Join(TreeObs(<<x>>), "\n"), Join(TreeText(<<x>>, <<>>), "\n")>> \o MapSeq(CmVars, LAMBDA q : CmdText(x, q)), "\n=\n")
\* a command that starts is read back the same, with variables and without
CmReads(x) == x.kind \notin CmHeads \/ x.st # "" \/ x.et = ""
CmInv(x) ==
  /\ WellNested(<<x>>)
  /\ CmReads(x) =>
       \A q \in {<<>>} \cup {CmVars[i] : i \in 1..Len(CmVars)} :
         LET r == ParseCommand(Expand(CmdText(x, q), q))
         IN r.ok /\ CmdText(r, <<>>) = CmdText(x, <<>>) /\ (x.kind # "T" => CmdObs(r) = CmdObs(x))
CmStep(x, o, y) == /\ y.kind = x.kind
                   /\ o.op # "kid" => y.kids = x.kids
                   /\ o.op # "st" => y.st = x.st
                   /\ o.op # "et" => y.et = x.et

(* --------------------------------- lists -------------------------------- *)
\* value: the items of a section
ListTypes == {"TimingPoints", "HitObjects", "Colours", "Events"}
LsLines == [TimingPoints |-> {<<"1,500,4,1,0,100,1,0", "14">>, <<"24,400", "3">>, <<"2,-50,4,2,1,50,0,1", "14">>, <<"3,300,4,1,0,70", "5">>},
            HitObjects |-> {<<"1,2,3,1,0,0:0:0:0:", "14">>, <<"1,2,30,2,0,B|1:2|3:4,1,100", "4">>, <<"1,2,30,12,0,40", "9">>, <<"64,192,5,128,0,40:1:2:3:4:a.wav", "14">>},
            Colours |-> {<<"Combo1 : 1,2,3", "14">>, <<"SliderBorder : 7,8,9", "5">>, <<"SliderTrackOverride:0,0,255", "14">>},
            Events |-> {<<"//c", "14">>, <<"3,5,1,2,3", "13">>, <<"0,0,b c.png", "14">>, <<"Sprite,Pass,Centre,a.png,1,2", "14">>, <<"2,24,48", "3">>}]
LsCtors(sec) == {O("new", <<>>)}
LsEdits(sec) == Ops("push", LsLines[sec]) \cup Ops("front", LsLines[sec]) \cup Ops("remove", One({"0", "1"})) \cup {O("swap", <<>>), O("double", <<>>)}
LsItem(sec, a) == ParseSection(sec, a[1], IntVal(a[2])).v[1]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
LsDo(sec, x, o) ==
  CASE o.op = "new" -> Res(<<>>, "")
    [] o.op = "push" -> Res(Append(x, LsItem(sec, o.a)), "")
    [] o.op = "front" -> Res(<<LsItem(sec, o.a)>> \o x, "")
    [] o.op = "remove" -> LET i == IntVal(o.a[1]) + 1 IN IF i <= Len(x) THEN Res(Without(x, i), "") ELSE Same(x)
    [] o.op = "swap" -> IF Len(x) < 2 THEN Same(x) ELSE Res([x EXCEPT ![1] = x[Len(x)], ![Len(x)] = x[1]], "")
    [] o.op = "double" -> Res(x \o x, "")
LsShown == <<3, 4, 5, 9, 13, 14>>
LsText(sec, x, w) == IF SectionWritten(sec, w) THEN PrintSection(sec, x, w) ELSE "?"
LsObs(sec, x) == Join(<<ObsSection(sec, x)>> \o MapSeq(LsShown, LAMBDA w : LsText(sec, x, w)), "\n=\n")
\* a section is its items, each written on its own, and is read back so
LsInv(sec, x) ==
  \A i \in 1..Len(LsShown) :
    LET w == LsShown[i]
        there == SelectSeq(x, LAMBDA e : sec # "Events" \/ EvWritten(e, w))
        t == LsText(sec, x, w)
        r == ParseSection(sec, t, w)
    IN SectionWritten(sec, w) =>
         /\ t = Join(MapSeq(there, LAMBDA e : PrintSection(sec, <<e>>, w)), "\n")
         /\ r.st = "ok" /\ Len(r.v) = Len(there) /\ PrintSection(sec, r.v, w) = t
LsStep(sec, x, o, y) == Len(y) = CASE o.op \in {"push", "front"} -> Len(x) + 1
                                   [] o.op = "remove" -> IF IntVal(o.a[1]) < Len(x) THEN Len(x) - 1 ELSE Len(x)
                                   [] o.op = "double" -> 2 * Len(x)
                                   [] OTHER -> Len(x)
=============================================================================
