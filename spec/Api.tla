-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* Values under edits.  A state is the history of calls made on one value  *)
(* of a public type: a constructor, then setters and other edits, each     *)
(* with what it returned and what could be observed afterwards.  The       *)
(* machine makes every call with every argument of its type's domain, so   *)
(* within Depth edits every history is reached; the invariants of the      *)
(* value types are checked in each state, and every complete history is    *)
(* replayed into the code.                                                 *)
(*                                                                         *)
(* A call is [op, a]: its name and its arguments as texts ("-" is None).   *)
(* A result is "" (done), "!message" (rejected) or a returned text.        *)
(***************************************************************************)
EXTENDS Values

CONSTANTS Types,     \* the value types to explore: sequence of names
          Depth      \* edits after the constructor
VARIABLES ty, v, h
vars == <<ty, v, h>>

(* ------------------- continuing fields (pairs of values) ---------------- *)
Pair(t) == Split(t, ";")
CfBad(q) == \E i \in 1..(Len(q) - 1) : q[i][2] = "-"
CfMsg == "continuing fields 2nd field is none without it being the last item in the continuing fields"
BoundsMsg == "continuing fields index out of bounds"
\* what the groups stand for: a second value that is left out is the one before it
CfFull(x) == [i \in 1..Len(x.c) |-> IF x.c[i][2] # "-" THEN x.c[i]
                                    ELSE <<x.c[i][1], IF i = 1 THEN x.s[2] ELSE x.c[i - 1][2]>>]
CfGroups == {"3;4", "5;-", "6;7"}
\* longer lists of whole groups with one of them (none: 0) replaced by a shortened one
Wide(whole, short) == {[i \in 1..n |-> IF i = k THEN short ELSE whole] : n \in 3..5, k \in 0..5}
CfCtors == {O("new", <<"1;2">> \o q) : q \in UpTo(CfGroups, 2) \cup Wide("3;4", "5;-")}
CfEdits == Ops("push", One(CfGroups)) \cup Ops("set", Two({"0", "1", "2"}, CfGroups \cup {"8;9"}))
             \cup {O("start", <<"10;11">>)}
CfDo(x, o) ==
  CASE o.op = "new" -> LET c == MapSeq(Tail(o.a), Pair)
                       IN IF CfBad(c) THEN Fail(Nil, CfMsg) ELSE Res([s |-> Pair(o.a[1]), c |-> c], "")
    [] o.op = "push" -> Res([x EXCEPT !.c = Append(CfFull(x), Pair(o.a[1]))], "")
    [] o.op = "start" -> Res([x EXCEPT !.s = Pair(o.a[1])], "")
    [] o.op = "set" ->
         LET i == IntVal(o.a[1]) + 1
             g == Pair(o.a[2])
         IN IF i # Len(x.c) /\ g[2] = "-" THEN Fail(x, CfMsg)
            ELSE IF i > Len(x.c) THEN Fail(x, BoundsMsg)
            ELSE Res([x EXCEPT !.c[i] = g], "")
Given(g) == SelectSeq(g, LAMBDA t : t # "-")
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
CfValues(x) == x.s \o Concat(MapSeq(x.c, Given))
CfObs(x) == Join(<<Join(x.s, ";")>> \o MapSeq(x.c, LAMBDA g : Join(g, ";")), "|") \o " = " \o Join(CfValues(x), ",")
\* only the last group may be shortened, and the written values are read as the same groups
CfInv(x) == /\ ~CfBad(x.c)
            /\ LET r == ParseCommand("M,0,0,0," \o Join(CfValues(x), ",")) IN r.ok /\ r.vals = CfValues(x)
\* appending never changes what the groups that are already there stand for
CfStep(x, o, y) == o.op = "push" => /\ Len(y.c) = Len(x.c) + 1
                                    /\ SubSeq(CfFull(y), 1, Len(x.c)) = CfFull(x)
                                    /\ y.c[Len(y.c)] = Pair(o.a[1])

(* --------------------- continuing colours (triples) --------------------- *)
GreenMsg == "continuing fields green field is none without it being the last item in the continuing fields"
BlueMsg == "continuing fields blue field is none without it being the last item in the continuing fields"
\* green and blue may be left out in the last group only, green not without blue
CcErr(g, last) == IF ~last /\ g[2] = "-" THEN GreenMsg
                  ELSE IF ~last /\ g[3] = "-" THEN BlueMsg
                  ELSE IF g[2] = "-" /\ g[3] # "-" THEN BlueMsg ELSE ""
CcFirstErr(c) == LET e == {i \in 1..Len(c) : CcErr(c[i], i = Len(c)) # ""}
                 IN IF e = {} THEN "" ELSE LET i == CHOOSE i \in e : \A j \in e : i <= j IN CcErr(c[i], i = Len(c))
CcPrev(x, i, k) == IF i = 1 THEN x.s[k] ELSE x.c[i - 1][k]
CcFull(x) == [i \in 1..Len(x.c) |->
                [k \in 1..3 |-> IF x.c[i][k] # "-" THEN x.c[i][k] ELSE CcPrev(x, i, k)]]
CcGroups == {"4;5;6", "7;8;-", "9;-;-", "1;-;2"}
CcCtors == {O("new", <<"10;20;30">> \o q) :
              q \in UpTo(CcGroups, 2) \cup UNION {Wide("4;5;6", g) : g \in CcGroups}}
CcEdits == Ops("push", One(CcGroups)) \cup Ops("set", Two({"0", "1", "2"}, CcGroups)) \cup {O("start", <<"40;50;255">>)}
CcDo(x, o) ==
  CASE o.op = "new" -> LET c == MapSeq(Tail(o.a), Pair)
                       IN IF CcFirstErr(c) # "" THEN Fail(Nil, CcFirstErr(c)) ELSE Res([s |-> Pair(o.a[1]), c |-> c], "")
    [] o.op = "push" ->
         LET g == Pair(o.a[1])
             p == CcFull(x)
             \* a green that is left out in front of a blue is the green before it
             before == IF p = <<>> THEN x.s[2] ELSE p[Len(p)][2]
         IN Res([x EXCEPT !.c = Append(p, IF g[2] = "-" /\ g[3] # "-" THEN [g EXCEPT ![2] = before] ELSE g)], "")
    [] o.op = "start" -> Res([x EXCEPT !.s = Pair(o.a[1])], "")
    [] o.op = "set" ->
         LET i == IntVal(o.a[1]) + 1
             g == Pair(o.a[2])
         IN IF CcErr(g, i = Len(x.c)) # "" THEN Fail(x, CcErr(g, i = Len(x.c)))
            ELSE IF i > Len(x.c) THEN Fail(x, BoundsMsg)
            ELSE Res([x EXCEPT !.c[i] = g], "")
CcValues(x) == x.s \o Concat(MapSeq(x.c, Given))
CcObs(x) == Join(<<Join(x.s, ";")>> \o MapSeq(x.c, LAMBDA g : Join(g, ";")), "|") \o " = " \o Join(CcValues(x), ",")
CcInv(x) == /\ CcFirstErr(x.c) = ""
            /\ LET r == ParseCommand("C,0,0,0," \o Join(CcValues(x), ",")) IN r.ok /\ r.vals = CcValues(x)
CcStep(x, o, y) == o.op = "push" => /\ Len(y.c) = Len(x.c) + 1
                                    /\ SubSeq(CcFull(y), 1, Len(x.c)) = CcFull(x)

(* ------------------------------- volumes -------------------------------- *)
LowMsg  == "The volume was attempted to set to 0, expected to be in range 1 ~ 100"
HighMsg == "The volume was too high, expected to be in range 1 ~ 100"
Vols == {"0", "1", "50", "99", "100", "101", "255"}
VolTexts == {"0", "1", "100", "101", "255", "256", "-1", "", "x", " 1", "+7", "007", "1.5"}
HvSet(x, t) == IF t = "0" THEN Fail(x, LowMsg) ELSE IF ~NatLeq(t, "100") THEN Fail(x, HighMsg) ELSE Res(t, "")
HvCtors == Ops("new", One(Vols \cup {"-"})) \cup Ops("str", One(VolTexts)) \cup {O("default", <<>>)}
HvEdits == Ops("set", One(Vols)) \cup {O("tp", <<>>)}
HvDo(x, o) ==
  CASE o.op = "new" /\ o.a[1] = "-" -> Res("-", "")
    [] o.op \in {"new", "set"} -> HvSet(x, o.a[1])
    [] o.op = "str" -> LET r == ParseInt(o.a[1], "u8")
                       IN IF ~r.ok THEN Fail(x, r.msg) ELSE IF r.txt = "0" THEN Res("-", "") ELSE HvSet(x, r.txt)
    [] OTHER -> Res("-", "")
HvObs(x) == x \o "|" \o YN(x = "-") \o "|" \o (IF x = "-" THEN "0" ELSE x)
HvInv(x) == x = "-" \/ (x # "0" /\ NatLeq(x, "100"))

AvMsg == "The volume was too high, expected the range 1 ~ 100"
AvSet(x, t) == IF NatLeq(t, "100") THEN Res(t, "") ELSE Fail(x, AvMsg)
AvCtors == Ops("new", One(Vols)) \cup Ops("str", One(VolTexts)) \cup {O("default", <<>>)}
AvEdits == Ops("set", One(Vols))
AvDo(x, o) ==
  CASE o.op \in {"new", "set"} -> AvSet(x, o.a[1])
    [] o.op = "str" -> LET r == ParseInt(o.a[1], "u8") IN IF ~r.ok THEN Fail(x, r.msg) ELSE AvSet(x, r.txt)
    [] OTHER -> Res("100", "")
AvObs(x) == x \o "|" \o x
AvInv(x) == NatLeq(x, "100")

TvNums == {"0", "1", "100", "101", "-1", "2147483647", "-2147483648"}
TvCtors == Ops("new", One(TvNums)) \cup Ops("str", One(VolTexts \cup {"2147483648"}))
TvEdits == Ops("set", One(TvNums))
TvDo(x, o) == IF o.op = "str" THEN LET r == ParseInt(o.a[1], "i32") IN IF r.ok THEN Res(r.txt, "") ELSE Fail(x, r.msg)
              ELSE Res(o.a[1], "")
TvObs(x) == x \o "|" \o x

SkipMsg == "Expected combo skip count to be 3 bits"
SkipNums == {"0", "1", "6", "7", "8", "9", "16", "255"}
CsSet(x, t) == IF NatLeq(t, "7") THEN Res(t, "") ELSE Fail(x, SkipMsg)
CsCtors == Ops("new", One(SkipNums)) \cup {O("default", <<>>)}
CsEdits == Ops("set", One(SkipNums))
CsDo(x, o) == IF o.op = "default" THEN Res("0", "") ELSE CsSet(x, o.a[1])
CsInv(x) == NatLeq(x, "7")

(* ------------------------------ hit sounds ------------------------------ *)
\* value: the mask 0..15 as a number
Bits4 == <<"normal", "whistle", "finish", "clap">>
SetBit(n, k, on) == IF on = (Bit(n, k) = 1) THEN n ELSE IF on THEN n + 2 ^ k ELSE n - 2 ^ k
Flags(a) == (IF a[1] = "y" THEN 1 ELSE 0) + (IF a[2] = "y" THEN 2 ELSE 0) + (IF a[3] = "y" THEN 4 ELSE 0) + (IF a[4] = "y" THEN 8 ELSE 0)
YNs == {"y", "n"}
HsCtors == {O("new", <<a, b, c, d>>) : a \in YNs, b \in YNs, c \in YNs, d \in YNs}
             \cup Ops("u8", One({"0", "1", "2", "4", "8", "15", "16", "31", "240", "255"}))
             \cup Ops("str", One({"0", "10", "16", "255", "256", "", "x", "-1"})) \cup {O("default", <<>>)}
HsEdits == {O(Bits4[k], <<b>>) : k \in 1..4, b \in YNs}
HsDo(x, o) ==
  CASE o.op = "new" -> Res(Flags(o.a), "")
    [] o.op = "u8" -> Res(IntVal(o.a[1]) % 16, "")
    [] o.op = "str" -> LET r == ParseInt(o.a[1], "u8") IN IF r.ok THEN Res(IntVal(r.txt) % 16, "") ELSE Fail(Nil, r.msg)
    [] o.op = "default" -> Res(0, "")
    [] OTHER -> LET k == CHOOSE k \in 1..4 : Bits4[k] = o.op IN Res(SetBit(x, k - 1, o.a[1] = "y"), "")
HsTxt(x) == HsObs(x) \o "|" \o ToString(x)
\* a flag is what it was set to last, and no other flag is touched
HsStep(x, o, y) == o.op \in {Bits4[k] : k \in 1..4} =>
                     \A k \in 1..4 : Bit(y, k - 1) = IF Bits4[k] = o.op THEN (IF o.a[1] = "y" THEN 1 ELSE 0) ELSE Bit(x, k - 1)

(* -------------------------------- effects ------------------------------- *)
\* value: the text of the 32 bit mask
FxBit(x, k) == Bit(Low4(x), k) = 1
FxSet(x, k, on) == IF on = FxBit(x, k) THEN x ELSE IF on THEN NatAdd(x, ToString(2 ^ k)) ELSE NatSub(x, ToString(2 ^ k))
FxMasks == {"0", "1", "2", "8", "9", "10", "15", "16", "4294967295", "4294967294", "2147483648", "4294967286"}
FxCtors == {O("new", <<a, b>>) : a \in YNs, b \in YNs} \cup Ops("u32", One(FxMasks))
             \cup Ops("str", One(FxMasks \cup {"", "x", "-1", "4294967296"}))
FxEdits == {O("kiai", <<b>>) : b \in YNs} \cup {O("bar", <<b>>) : b \in YNs} \cup {O("clear", <<>>)}
FxDo(x, o) ==
  CASE o.op = "new" -> Res(ToString((IF o.a[1] = "y" THEN 1 ELSE 0) + (IF o.a[2] = "y" THEN 8 ELSE 0)), "")
    [] o.op = "u32" -> Res(o.a[1], "")
    [] o.op = "str" -> LET r == ParseInt(o.a[1], "u32") IN IF r.ok THEN Res(r.txt, "") ELSE Fail(Nil, r.msg)
    [] o.op = "kiai" -> Res(FxSet(x, 0, o.a[1] = "y"), "")
    [] o.op = "bar" -> Res(FxSet(x, 3, o.a[1] = "y"), "")
    [] o.op = "clear" -> Res(ToString((IF FxBit(x, 0) THEN 1 ELSE 0) + (IF FxBit(x, 3) THEN 8 ELSE 0)), "")
FxObs(x) == YN(FxBit(x, 0)) \o YN(FxBit(x, 3)) \o "|" \o x
FxInv(x) == NatLeq(x, IntMax["u32"])
\* setting a flag changes that flag only, clearing keeps both flags
FxStep(x, o, y) ==
  CASE o.op = "kiai" -> FxBit(y, 0) = (o.a[1] = "y") /\ FxBit(y, 3) = FxBit(x, 3) /\ FxSet(y, 0, FxBit(x, 0)) = x
    [] o.op = "bar" -> FxBit(y, 3) = (o.a[1] = "y") /\ FxBit(y, 0) = FxBit(x, 0) /\ FxSet(y, 3, FxBit(x, 3)) = x
    [] o.op = "clear" -> FxBit(y, 3) = FxBit(x, 3) /\ FxBit(y, 0) = FxBit(x, 0) /\ NatLeq(y, "9")
    [] OTHER -> TRUE

(* ----------------------------- timing points ---------------------------- *)
TpArgs == <<"7", "4", "2", "3", "60", "1">>     \* time, meter, set, index, volume, effects
\* new_inherited: beat length is -100 / velocity
Velocity == ("1" :> "-100" @@ "2" :> "-50" @@ "0.5" :> "-200" @@ "0.1" :> "-1000" @@ "8" :> "-12.5" @@ "0.25" :> "-400" @@ "-1.6" :> "62.5")
TpCtors == {O("inherited", <<sv>> \o TpArgs) : sv \in DOMAIN Velocity}
             \cup {O("uninherited", <<b>> \o TpArgs) : b \in {"500", "300.50", "x", "-1", "0", "0.00", "333.33", "-0.0", "3", "300", "-0.0000000000000000000000007", "350.877192982456"}}
             \cup {O("parse", <<t, w>>) : t \in {"1,400,4,1,0,100,1,8", "1,-50,4,5,4294967295,70,0,6"}, w \in {"14", "5"}}
             \cup {O("parse", <<"1,400,4,1,0", "4">>), O("parse", <<"1,400", "3">>), O("parse", <<"1,400,4,1,0,70", "5">>)}
TpEdits == Ops("time", One({"-5", "2147483647"})) \cup Ops("meter", One({"3", "-2147483648"}))
             \cup Ops("set", One({"0", "1", "2", "3", "4", "-1"})) \cup Ops("index", One({"0", "5", "2147483647", "4294967295"}))
             \cup Ops("volume", One({"0", "-7", "101"})) \cup Ops("unin", One(YNs))
             \cup Ops("effects", One({"-", "0", "9", "4294967295"})) \cup Ops("kiai", One(YNs)) \cup Ops("bar", One(YNs))
TpDo(x, o) ==
  CASE o.op \in {"inherited", "uninherited"} ->
         LET inh == o.op = "inherited"
         IN Res(TpOk(Dec(o.a[2]), Dec(IF inh THEN Velocity[o.a[1]] ELSE o.a[1]), o.a[3], o.a[4], o.a[5], o.a[6],
                     IF inh THEN "0" ELSE "1", o.a[7]), "")
    [] o.op = "parse" -> Res(ParseTp(o.a[1], IntVal(o.a[2])), "")
    [] o.op = "time" -> Res([x EXCEPT !.time = Dec(o.a[1])], "")
    [] o.op = "meter" -> Res([x EXCEPT !.meter = o.a[1]], "")
    [] o.op = "set" -> Res([x EXCEPT !.sset = o.a[1]], "")
    [] o.op = "index" -> Res([x EXCEPT !.sidx = o.a[1]], "")
    [] o.op = "volume" -> Res([x EXCEPT !.vol = o.a[1]], "")
    [] o.op = "unin" -> Res([x EXCEPT !.unin = IF o.a[1] = "y" THEN "1" ELSE "0"], "")
    [] o.op = "effects" -> Res([x EXCEPT !.eff = IF o.a[1] = "-" THEN "" ELSE o.a[1]], "")
    [] o.op = "kiai" -> IF x.eff = "" THEN Res(x, "none") ELSE Res([x EXCEPT !.eff = FxSet(@, 0, o.a[1] = "y")], "")
    [] o.op = "bar" -> IF x.eff = "" THEN Res(x, "none") ELSE Res([x EXCEPT !.eff = FxSet(@, 3, o.a[1] = "y")], "")
\* a numeral without the zeros at its end
RECURSIVE Short(_)
Short(d) == IF ~d.num THEN d ELSE IF d.co = "0" THEN DecOf(FALSE, "0", 0)
            ELSE IF d.sc > 0 /\ At(d.co, Len(d.co)) = "0" THEN Short([d EXCEPT !.co = Upto(@, Len(@) - 1), !.sc = @ - 1]) ELSE d
\* how many decimals a computed beat length is written with is left open
TpTxt(x) == LET y == [x EXCEPT !.beat = Short(@)]
            IN TpObs(x) \o " = " \o Join(<<TpText(y, 3), TpText(y, 4), TpText(y, 5), TpText(y, 14)>>, " = ")

(* --------------------- beat duration and tempo -------------------------- *)
Tempos == {"120", "-60", "0.5", "333.33", "1", "60000", "7", "0.001", "3", "-300", "0.07", "181.81818181818181818181818182", "49", "1200.5", "123456789012345678901234"}
TmCtors == Ops("bpm", One(Tempos)) \cup Ops("ms", One(Tempos))
TmDo(x, o) == Res(Dec(o.a[1]), "")
TmObs(x) == Ratio("60000", x.neg, x)

\* what is written is read back, and where nothing was left out it is the same point
TpInv(x) == /\ \A w \in {3, 4, 5, 14} : LET r == ParseTp(TpText(x, w), w) IN r.ok /\ TpText(r, w) = TpText(x, w)
            /\ LET r == ParseTp(TpText(x, 14), 14)
               IN (x.eff # "" /\ x.unin # "") \/ (x.eff = "" /\ x.unin = "") => TpObs(r) = TpObs(x)

(* ------------------------------ file names ------------------------------ *)
Names == {"a.png", "a b.png", "\"a.png\"", "\"a b.png\"", "\"a b", "a b\"", "\"", "", " ", "sb/a b.png", "sb\\a.png", "日 本.png", "a\"b c",
          "a.b c.png", "\" \"", "..", "a  b"}
FpText(x) == IF Contains(x, " ") /\ ~(StartsWith(x, "\"") /\ EndsWith(x, "\"")) THEN "\"" \o x \o "\"" ELSE x
\* every name of up to k pieces
Pieced(ps, k) == UNION {{Join(f, "") : f \in [1..i -> ps]} : i \in 0..k}
FpCtors == Ops("from", One(Names \cup Pieced({"a", " ", "\"", "/", "."}, 3)))
FpEdits == Ops("set", One(Names))
FpDo(x, o) == Res(o.a[1], "")
FpObs(x) == x \o " = " \o FpText(x)
\* the written name is one field that is written the same way again
FpInv(x) == FpText(FpText(x)) = FpText(x) /\ (Contains(x, " ") => StartsWith(FpText(x), "\"") /\ EndsWith(FpText(x), "\""))

RelMsg == "The filepath needs to be a path relative to where the .osu file is, not a full path such as `C:\\folder\\image.png`"
SpCtors == Ops("new", One(Names \cup Pieced({"/", "a", ".", " ", "\\", "C:", "\""}, 3) \cup {"/", "/a.png", "//a.png", "./a.png", "\"/a.png\"", "../a.png", " /a"}))
SpDo(x, o) == IF StartsWith(o.a[1], "/") THEN Fail(Nil, RelMsg) ELSE Res(o.a[1], "")
SpObs(x) == x

(* --------------------------- animation frames --------------------------- *)
FrameNames == {"a.png", "sb/a.png", "a", "a.b.png", ".png", "\"a b.png\"", "a.", "日 本.png", "", "..", "a.png/", "dir/", "dir/.", "x/..", "..png", "a..png", "/", "1.2.3"}
\* the last component of a path ("" when it has none) and where its extension starts
RECURSIVE LastPart(_)
LastPart(p) == LET q == SelectSeq(Split(p, "/"), LAMBDA t : t # "" /\ t # ".")
               IN IF q = <<>> \/ q[Len(q)] = ".." THEN "" ELSE q[Len(q)]
ExtAt(n) == LET d == Positions(n, ".") IN IF d = <<>> \/ d[Len(d)] = 1 THEN Len(n) + 1 ELSE d[Len(d)]
Frames(p, count) == LET n == LastPart(p) e == ExtAt(n)
                    IN [i \in 1..count |-> Upto(n, e - 1) \o ToString(i - 1) \o From(n, e)]
AnCtors == {O("new", <<p, c>>) : p \in FrameNames, c \in {"0", "1", "3", "12", "101"}}
             \cup {O("new", <<p, "2">>) : p \in Pieced({"a", ".", "png", ".png", "/", " ", "0"}, 4)}
AnEdits == Ops("count", One({"0", "2", "11"})) \cup Ops("path", One({"b.jpg", "c/d"}))
AnDo(x, o) == CASE o.op = "new" -> Res([p |-> o.a[1], n |-> IntVal(o.a[2])], "")
                [] o.op = "count" -> Res([x EXCEPT !.n = IntVal(o.a[1])], "")
                [] o.op = "path" -> Res([x EXCEPT !.p = o.a[1]], "")
AnObs(x) == Join(Frames(x.p, x.n), "|")
AnInv(x) == \A i, j \in 1..x.n : i # j => Frames(x.p, x.n)[i] # Frames(x.p, x.n)[j]

(* ------------------------------- decimals ------------------------------- *)
DcTexts == {"1.50", "0", "-0", "x", "", " 1", "1e3", ".5", "5.", "+7", "79228162514264337593543950335", "79228162514264337593543950336", "1_0"}
DcCtors == Ops("from", One(DcTexts)) \cup Ops("parse", One(DcTexts)) \cup Ops("text", One(DcTexts)) \cup Ops("int", One({"0", "-5", "2147483647"})) \cup {O("default", <<>>)}
DcEdits == Ops("right", One({"3.0", "y"})) \cup Ops("left", One({"4.10", "-2"})) \cup {O("make", <<>>)}
DcDo(x, o) ==
  CASE o.op \in {"from", "parse", "int", "left"} -> Res(Dec(o.a[1]), "")
    [] o.op \in {"text", "right"} -> Res(Verb(o.a[1]), "")
    [] o.op = "default" -> Res(Dec("0"), "")
    [] o.op = "make" -> IF x.num THEN Res(x, "") ELSE IF Dec(x.txt).num THEN Res(Dec(x.txt), "") ELSE Res(x, "error")
DcObs(x) == (IF x.num THEN "number " ELSE "text ") \o DecText(x)

(* -------------------------------- errors -------------------------------- *)
\* value: the kind of the inner error ("a" or "b"), its message and its line; "ok" results too
ErTexts == <<"", "one", "one\ntwo", "one\r\ntwo\n", "\n\nthree\n", "1\n2\n3\n4\n5\n6\n7\n8">>
ErCtors == {O("new", <<"m", n>>) : n \in {"0", "1", "5"}} \cup {O("from", <<"m">>), O("into", <<"m", "2">>)}
             \cup {O("result", <<"m", "1">>), O("result_into", <<"m", "3">>), O("ok", <<"value">>)}
ErEdits == {O("error_into", <<>>), O("error_result_into", <<>>)} \cup Ops("processing_line", One({"0", "1", "3"}))
Flip(x) == [x EXCEPT !.e = IF @ = "a" THEN "b" ELSE "a", !.m = (IF x.e = "a" THEN "b:" ELSE "a:") \o @]
ErDo(x, o) ==
  CASE o.op = "ok" -> Res([ok |-> TRUE, e |-> "a", m |-> o.a[1], n |-> 0], "")
    [] o.op = "from" -> Res([ok |-> FALSE, e |-> "a", m |-> o.a[1], n |-> 0], "")
    [] o.op \in {"new", "result"} -> Res([ok |-> FALSE, e |-> "a", m |-> o.a[1], n |-> IntVal(o.a[2])], "")
    [] o.op \in {"into", "result_into"} -> Res([ok |-> FALSE, e |-> "b", m |-> "b:" \o o.a[1], n |-> IntVal(o.a[2])], "")
    [] x.ok -> Res([x EXCEPT !.e = IF @ = "a" THEN "b" ELSE "a"], "")
    [] o.op \in {"error_into", "error_result_into"} -> Res(Flip(x), "")
    [] o.op = "processing_line" -> Res([Flip(x) EXCEPT !.n = @ + IntVal(o.a[1])], "")
LineText(t, n) == LET q == Lines(t) IN IF n + 1 <= Len(q) THEN q[n + 1] ELSE ""
ErObs(x) ==
  IF x.ok THEN "ok " \o x.m
  ELSE LET l == "Line " \o ToString(x.n + 1)
       \* the cause of a located error is the cause of the error inside of it; errors of kind b have none
       IN Join(<<x.e, ToString(x.n), x.m, l \o ", " \o x.m, IF x.e = "a" THEN "cause of " \o x.m ELSE "">>
               \o MapSeq(ErTexts, LAMBDA t : l \o ": " \o LineText(t, x.n) \o ", " \o x.m), " = ")
\* relocating adds lines, and nothing loses the message
ErStep(x, o, y) == /\ y.ok = x.ok
                   /\ EndsWith(y.m, x.m)
                   /\ y.n = x.n + (IF o.op = "processing_line" /\ ~x.ok THEN IntVal(o.a[1]) ELSE 0)

(* --------------------- commands pushed onto an event -------------------- *)
EcKinds == {"Sprite,Pass,Centre,\"a.png\",320,240", "Animation,Pass,Centre,\"a.png\",320,240,1,2", "0,0,\"b.png\",0,0", "Video,5,v.avi"}
OldKinds == {"4,3,1,s.png", "5,3,1,a.png,2,3", "6,12,1,s.wav,40"}
EcCmds == {"F,0,1,2,1", "L,5,2", "T,Passing,1,2"}
EcCtors == {O("event", <<e>>) : e \in EcKinds} \cup {O("event3", <<e>>) : e \in OldKinds}
EcEdits == {O("push", <<c, n>>) : c \in EcCmds, n \in {"0", "1", "2", "3", "5"}}
EcDo(x, o) ==
  CASE o.op \in {"event", "event3"} -> Res(<<>>, "")
    [] o.op = "push" -> LET n == IntVal(o.a[2])
                            r == Push(x, ParseCommand(o.a[1]), n)
                        IN IF r.ok THEN Res(r.t, "") ELSE Fail(x, r.msg)
EcObs(x) == Join(TreeObs(x), "\n") \o "\n=\n" \o Join(TreeText(x, <<>>), "\n")
EcInv(x) == WellNested(x)
EcCount(x) == Len(Flat(x, 1, 1))
EcStep(x, o, y) == LET n == IntVal(o.a[2]) IN (y = x \/ EcCount(y) = EcCount(x) + 1)

(* ------------------------------ hit objects ----------------------------- *)
Num0 == Dec("0")
HoOf(kind, x, p) == Obj(kind, Dec(x), Dec("192"), Num0, 0, 0, p, NoSample)
HoCtors == {O("circle", <<>>), O("spinner", <<>>), O("hold", <<>>),
            O("parse", <<"1,2,3,6,2,B|1:2|3:4,1,100", "14">>), O("parse", <<"1,2,30,2,0,L,1,100,2|0,0:0|1:1,1:2:3:4:a.wav", "14">>),
            O("parse", <<"1,2,3,2,0,P|5:6|7:8,1,90.50", "3">>), O("parse", <<"1,2,3,2,0,P|5:6|7:8,1,90.50,1|2", "9">>), O("parse", <<"1,2,30,117,15,0:0:0:0:", "14">>)}
HoEdits == Ops("pos", {<<"-5", "1.50">>}) \cup Ops("time", One({"24", "-1", "x"})) \cup Ops("combo", One(YNs)) \cup Ops("skip", One({"0", "5", "7"}))
             \cup Ops("sound", One({"0", "10"})) \cup Ops("sample", One({"-", "1:2:3:4:a.wav", "0:0:0:0:", "3:0:7"}))
             \cup Ops("end", One({"100", "-0.5"})) \cup Ops("slide", {<<"C", "", "2", "50", "", "">>, <<"P", "1:2|3:4", "-1", "0.10", "2|0", "1:2">>,
                                                                <<"L", "5:6", "1", "100", "", "1:2">>, <<"B", "5:6|5:6", "0", "100", "8", "">>})
             \cup Ops("sounds", One({"", "4|2"})) \cup Ops("sets", One({"", "2:3|0:0"})) \cup Ops("points", One({"", "7:8"}))
HoDo(x, o) ==
  CASE o.op = "circle" -> Res(HoOf("circle", "256", NoParams), "")
    [] o.op = "spinner" -> Res(HoOf("spinner", "256", [NoParams EXCEPT !.end = Num0]), "")
    [] o.op = "hold" -> Res(HoOf("hold", "0", [NoParams EXCEPT !.end = Num0]), "")
    [] o.op = "parse" -> Res(ParseHo(o.a[1], IntVal(o.a[2])), "")
    [] o.op = "pos" -> Res([x EXCEPT !.x = Dec(o.a[1]), !.y = Dec(o.a[2])], "")
    [] o.op = "time" -> Res([x EXCEPT !.time = Dec(o.a[1])], "")
    [] o.op = "combo" -> Res([x EXCEPT !.nc = o.a[1] = "y"], "")
    [] o.op = "skip" -> Res([x EXCEPT !.skip = IntVal(o.a[1])], "")
    [] o.op = "sound" -> Res([x EXCEPT !.hs = IntVal(o.a[1])], "")
    [] o.op = "sample" -> Res([x EXCEPT !.sample = IF o.a[1] = "-" THEN NoSample ELSE ParseSample(o.a[1]).v], "")
    [] o.op = "end" -> IF x.kind \in {"spinner", "hold"} THEN Res([x EXCEPT !.params.end = Dec(o.a[1])], "") ELSE Res(x, "none")
    [] o.op = "slide" ->
         Res([x EXCEPT !.kind = "slider",
                       !.params = [NoParams EXCEPT !.curve = o.a[1], !.pts = Piped("point", o.a[2], 1).v, !.slides = o.a[3], !.len = Dec(o.a[4]),
                                                   !.es = Piped("sound", o.a[5], 1).v, !.sets = Piped("set", o.a[6], 1).v]], "")
    [] o.op = "sounds" -> IF x.kind = "slider" THEN Res([x EXCEPT !.params.es = Piped("sound", o.a[1], 1).v], "") ELSE Res(x, "none")
    [] o.op = "sets" -> IF x.kind = "slider" THEN Res([x EXCEPT !.params.sets = Piped("set", o.a[1], 1).v], "") ELSE Res(x, "none")
    [] o.op = "points" -> IF x.kind = "slider" THEN Res([x EXCEPT !.params.pts = Piped("point", o.a[1], 1).v], "") ELSE Res(x, "none")
HoTxt(x) == HoObs(x) \o " = " \o Join(<<HoText(x, 3), HoText(x, 4), HoText(x, 9), HoText(x, 11), HoText(x, 14)>>, " = ")
\* a hold note without a sample is read back with the default sample
NoHoldSample(x) == x.kind = "hold" /\ ~x.sample.some
HoInv(x) == /\ \A w \in {3, 9, 14} : LET r == ParseHo(HoText(x, w), w) IN r.ok /\ (NoHoldSample(x) \/ HoText(r, w) = HoText(x, w))
            /\ NoHoldSample(x) \/ HoObs(ParseHo(HoText(x, 14), 14)) = HoObs(x)

(* ------------------------------ the machine ----------------------------- *)
Ctors(t) == CASE t = "pairs" -> CfCtors [] t = "colours" -> CcCtors [] t = "hitvolume" -> HvCtors [] t = "audiovolume" -> AvCtors
              [] t = "timingvolume" -> TvCtors [] t = "comboskip" -> CsCtors [] t = "hitsound" -> HsCtors [] t = "effects" -> FxCtors
              [] t = "timingpoint" -> TpCtors [] t = "tempo" -> TmCtors [] t = "path" -> FpCtors [] t = "sprite" -> SpCtors [] t = "frames" -> AnCtors
              [] t = "decimal" -> DcCtors [] t = "error" -> ErCtors [] t = "event" -> EcCtors [] t = "hitobject" -> HoCtors [] t = "file" -> FiCtors [] t = "made" -> MeCtors [] t = "command" -> CmCtors [] t \in ListTypes -> LsCtors(t) [] OTHER -> KvCtors(t)
Edits(t) == CASE t = "pairs" -> CfEdits [] t = "colours" -> CcEdits [] t = "hitvolume" -> HvEdits [] t = "audiovolume" -> AvEdits
              [] t = "timingvolume" -> TvEdits [] t = "comboskip" -> CsEdits [] t = "hitsound" -> HsEdits [] t = "effects" -> FxEdits
              [] t = "timingpoint" -> TpEdits [] t = "tempo" -> {} [] t = "path" -> FpEdits [] t = "sprite" -> {} [] t = "frames" -> AnEdits
              [] t = "decimal" -> DcEdits [] t = "error" -> ErEdits [] t = "event" -> EcEdits [] t = "hitobject" -> HoEdits [] t = "file" -> FiEdits [] t = "made" -> MeEdits [] t = "command" -> CmEdits [] t \in ListTypes -> LsEdits(t) [] OTHER -> KvEdits(t)
Do(t, x, o) == CASE t = "pairs" -> CfDo(x, o) [] t = "colours" -> CcDo(x, o) [] t = "hitvolume" -> HvDo(x, o) [] t = "audiovolume" -> AvDo(x, o)
              [] t = "timingvolume" -> TvDo(x, o) [] t = "comboskip" -> CsDo(x, o) [] t = "hitsound" -> HsDo(x, o) [] t = "effects" -> FxDo(x, o)
              [] t = "timingpoint" -> TpDo(x, o) [] t = "tempo" -> TmDo(x, o) [] t = "path" -> FpDo(x, o) [] t = "sprite" -> SpDo(x, o) [] t = "frames" -> AnDo(x, o)
              [] t = "decimal" -> DcDo(x, o) [] t = "error" -> ErDo(x, o) [] t = "event" -> EcDo(x, o) [] t = "hitobject" -> HoDo(x, o) [] t = "file" -> FiDo(x, o) [] t = "made" -> MeDo(x, o) [] t = "command" -> CmDo(x, o) [] t \in ListTypes -> LsDo(t, x, o) [] OTHER -> KvDo(t, x, o)
ApiObs(t, x) == CASE t = "pairs" -> CfObs(x) [] t = "colours" -> CcObs(x) [] t = "hitvolume" -> HvObs(x) [] t = "audiovolume" -> AvObs(x)
              [] t = "timingvolume" -> TvObs(x) [] t = "comboskip" -> x [] t = "hitsound" -> HsTxt(x) [] t = "effects" -> FxObs(x)
              [] t = "timingpoint" -> TpTxt(x) [] t = "tempo" -> TmObs(x) [] t = "path" -> FpObs(x) [] t = "sprite" -> SpObs(x) [] t = "frames" -> AnObs(x)
              [] t = "decimal" -> DcObs(x) [] t = "error" -> ErObs(x) [] t = "event" -> EcObs(x) [] t = "hitobject" -> HoTxt(x) [] t = "file" -> FiObs(x) [] t = "made" -> MeObs(x) [] t = "command" -> CmObs(x) [] t \in ListTypes -> LsObs(t, x) [] OTHER -> KvObsAll(t, x)
Inv(t, x) == CASE t = "pairs" -> CfInv(x) [] t = "colours" -> CcInv(x) [] t = "hitvolume" -> HvInv(x) [] t = "audiovolume" -> AvInv(x)
              [] t = "comboskip" -> CsInv(x) [] t = "effects" -> FxInv(x) [] t = "timingpoint" -> TpInv(x) [] t = "path" -> FpInv(x)
              [] t = "frames" -> AnInv(x) [] t = "event" -> EcInv(x) [] t = "hitobject" -> HoInv(x) [] t = "file" -> FiInv(x) [] t = "made" -> MeInv(x) [] t = "command" -> CmInv(x) [] t \in ListTypes -> LsInv(t, x) [] t \in KVSections -> KvInv(t, x) [] OTHER -> TRUE
Step(t, x, o, y) == CASE t = "pairs" -> CfStep(x, o, y) [] t = "colours" -> CcStep(x, o, y) [] t = "hitsound" -> HsStep(x, o, y)
              [] t = "effects" -> FxStep(x, o, y) [] t = "error" -> ErStep(x, o, y) [] t = "event" -> EcStep(x, o, y) [] t = "file" -> FiStep(x, o, y) [] t = "made" -> MeStep(x, o, y) [] t = "command" -> CmStep(x, o, y) [] t \in ListTypes -> LsStep(t, x, o, y) [] t \in KVSections -> KvStep(t, x, o, y) [] OTHER -> TRUE

Rejected(r) == StartsWith(r, "!")
Made == h # <<>> /\ ~Rejected(h[1].r)
Call(o) == LET d == Do(ty, v, o)
           IN /\ v' = d.v
              /\ h' = Append(h, [op |-> o.op, a |-> o.a, r |-> d.r,
                                 o |-> IF h = <<>> /\ Rejected(d.r) THEN "" ELSE ApiObs(ty, d.v)])
              /\ Assert(h # <<>> => Step(ty, v, o, d.v), <<"step", ty, v, o, d.v>>)
              \* what is rejected changes nothing
              /\ Assert(h # <<>> /\ Rejected(d.r) => d.v = v, <<"rejected", ty, v, o>>)
              /\ UNCHANGED ty
Init == ty \in {Types[i] : i \in 1..Len(Types)} /\ v = Nil /\ h = <<>>
Next == \/ h = <<>> /\ \E o \in Ctors(ty) : Call(o)
        \/ Made /\ Len(h) <= Depth /\ \E o \in Edits(ty) : Call(o)
Spec == Init /\ [][Next]_vars

Complete == h # <<>> /\ (~Made \/ Len(h) = Depth + 1 \/ Edits(ty) = {})
Behaviour == /\ Made => Inv(ty, v)
             /\ Complete => Emit([k |-> "api", ty |-> ty, st |-> ty, t |-> "", v |-> 14, h |-> h])
=============================================================================
