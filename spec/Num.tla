--------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Numerals.  Integers are validated and canonicalised on their decimal    *)
(* digits (so that the full 32/64-bit ranges are covered although TLC's    *)
(* own integers are 32 bits wide); decimals are exact decimal fractions    *)
(* that keep the number of fraction digits they were written with.         *)
(***************************************************************************)
EXTENDS Text

Digit == {"0","1","2","3","4","5","6","7","8","9"}
DigVal == [d \in Digit |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3
                             [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7
                             [] d = "8" -> 8 [] d = "9" -> 9]
DigOf == <<"0","1","2","3","4","5","6","7","8","9">>

StripZeros(d) == LET i == SkipIn(d, 1, {"0"}) IN IF i > Len(d) THEN "0" ELSE From(d, i)

\* compare two digit strings of equal length
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF At(a, i) = At(b, i) THEN LexLess(a, b, i + 1)
                    ELSE DigVal[At(a, i)] < DigVal[At(b, i)]
NatLess(a0, b0) == LET a == StripZeros(a0) b == StripZeros(b0)
                   IN IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b, 1)
NatLeq(a, b) == ~NatLess(b, a)

(* ---------------------------- integers --------------------------------- *)
IntMax == [i32 |-> "2147483647", u8 |-> "255", u32 |-> "4294967295",
           usize |-> "18446744073709551615"]
IntMin == [i32 |-> "2147483648", u8 |-> "0", u32 |-> "0", usize |-> "0"]
Signed(k) == k = "i32"

EmptyMsg   == "cannot parse integer from empty string"
DigitMsg   == "invalid digit found in string"
PosOverMsg == "number too large to fit in target type"
NegOverMsg == "number too small to fit in target type"

IntErr(m)  == [ok |-> FALSE, msg |-> m, txt |-> ""]
IntOk(t)   == [ok |-> TRUE, msg |-> "", txt |-> t]

\* the integer written in s, as kind k ("i32", "u8", "u32", "usize")
ParseInt(s, k) ==
  IF s = "" THEN IntErr(EmptyMsg)
  ELSE IF s \in {"+", "-"} THEN IntErr(DigitMsg)
  ELSE LET c   == At(s, 1)
           neg == c = "-" /\ Signed(k)
           b   == IF neg \/ c = "+" THEN 2 ELSE 1
           e   == SkipIn(s, b, Digit)
           ds  == StripZeros(Sub(s, b, e - 1))
           lim == IF neg THEN IntMin[k] ELSE IntMax[k]
           fit == e = b \/ NatLeq(ds, lim)
       IN IF ~fit THEN IntErr(IF neg THEN NegOverMsg ELSE PosOverMsg)
          ELSE IF e <= Len(s) THEN IntErr(DigitMsg)
          ELSE IntOk(IF neg /\ ds # "0" THEN "-" \o ds ELSE ds)

\* TLC integer value of a canonical i32 text
RECURSIVE NatVal(_, _, _)
NatVal(s, i, acc) == IF i > Len(s) THEN acc ELSE NatVal(s, i + 1, acc * 10 + DigVal[At(s, i)])
RECURSIVE NegVal(_, _, _)
NegVal(s, i, acc) == IF i > Len(s) THEN acc ELSE NegVal(s, i + 1, acc * 10 - DigVal[At(s, i)])
IntVal(t) == IF At(t, 1) = "-" THEN NegVal(t, 2, 0) ELSE NatVal(t, 1, 0)

Bit(n, k) == (n \div (2 ^ k)) % 2

(* ------------------- digit-string addition/subtraction ------------------ *)
PadLeft(d, n) == Repeat("0", n - Len(d)) \o d
RECURSIVE AddDigits(_, _, _, _, _)
AddDigits(a, b, i, carry, acc) ==
  IF i = 0 THEN IF carry = 1 THEN "1" \o acc ELSE acc
  ELSE LET t == DigVal[At(a, i)] + DigVal[At(b, i)] + carry
       IN AddDigits(a, b, i - 1, t \div 10, DigOf[(t % 10) + 1] \o acc)
NatAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
                IN StripZeros(AddDigits(PadLeft(a, n), PadLeft(b, n), n, 0, ""))
RECURSIVE SubDigits(_, _, _, _, _)
SubDigits(a, b, i, borrow, acc) ==
  IF i = 0 THEN acc
  ELSE LET t == DigVal[At(a, i)] - DigVal[At(b, i)] - borrow
       IN IF t < 0 THEN SubDigits(a, b, i - 1, 1, DigOf[t + 11] \o acc)
          ELSE SubDigits(a, b, i - 1, 0, DigOf[t + 1] \o acc)
\* a - b for a >= b
NatSub(a, b) == LET n == Len(a) IN StripZeros(SubDigits(a, PadLeft(b, n), n, 0, ""))

\* signed integers as canonical texts
Neg(t) == t # "" /\ At(t, 1) = "-"
Mag(t) == IF Neg(t) THEN From(t, 2) ELSE t
Mk(neg, m) == LET z == StripZeros(m) IN IF neg /\ z # "0" THEN "-" \o z ELSE z
TxtAdd(a, b) ==
  IF Neg(a) = Neg(b) THEN Mk(Neg(a), NatAdd(Mag(a), Mag(b)))
  ELSE IF NatLess(Mag(a), Mag(b)) THEN Mk(Neg(b), NatSub(Mag(b), Mag(a)))
  ELSE Mk(Neg(a), NatSub(StripZeros(Mag(a)), StripZeros(Mag(b))))
FitsI32(t) == IF Neg(t) THEN NatLeq(Mag(t), IntMin["i32"]) ELSE NatLeq(Mag(t), IntMax["i32"])

(* ------------------------------ decimals -------------------------------- *)
(* A decimal value is [num |-> BOOLEAN, neg, co, sc, txt]:                  *)
(*   num = TRUE  : the fraction (-1)^neg * co * 10^-sc, co a digit string   *)
(*   num = FALSE : text kept verbatim because it is not a decimal numeral   *)
CoMax == "79228162514264337593543950335"
Verb(s) == [num |-> FALSE, neg |-> FALSE, co |-> "", sc |-> 0, txt |-> s]
DecOf(neg, co, sc) == [num |-> TRUE, neg |-> neg /\ StripZeros(co) # "0", co |-> StripZeros(co), sc |-> sc, txt |-> ""]

RECURSIVE NoUnderscore(_, _)
NoUnderscore(s, i) == IF i > Len(s) THEN "" ELSE (IF At(s, i) = "_" THEN "" ELSE At(s, i)) \o NoUnderscore(s, i + 1)

\* numerals: sign? then digits with at most one point, "_" only after a digit
DecShape(s) ==
  LET b  == IF s # "" /\ At(s, 1) \in {"+", "-"} THEN 2 ELSE 1
      r  == From(s, b)
      dp == Positions(r, ".")
      firstDigit == SkipTo(r, 1, Digit)
  IN /\ r # ""
     /\ Len(dp) <= 1
     /\ firstDigit <= Len(r)
     /\ \A i \in 1..Len(r) : At(r, i) \in Digit \cup {".", "_"}
     /\ \A i \in 1..Len(r) : At(r, i) = "_" => i > firstDigit

Dec(s) ==
  IF ~DecShape(s) THEN Verb(s)
  ELSE LET b   == IF At(s, 1) \in {"+", "-"} THEN 2 ELSE 1
           r   == IF Contains(s, "_") THEN NoUnderscore(From(s, b), 1) ELSE From(s, b)
           dot == SkipTo(r, 1, {"."})
           ip  == Upto(r, dot - 1)
           fp  == From(r, dot + 1)
           neg == At(s, 1) = "-"
       IN IF Len(fp) <= 28 /\ NatLeq(ip \o fp, CoMax) THEN DecOf(neg, ip \o fp, Len(fp))
          ELSE IF dot > Len(r) THEN Verb(s)          \* integer too large
          ELSE IF ~NatLeq(ip \o "0", CoMax) /\ ~NatLeq(ip, CoMax) THEN Verb(s)
          ELSE \* keep as many fraction digits as fit, round half up on the next one
               LET Fit(n) == n <= 28 /\ n <= Len(fp) /\ NatLeq(ip \o Upto(fp, n), CoMax)
                   k == CHOOSE n \in 0..Len(fp) : Fit(n) /\ ~Fit(n + 1)
                   co == ip \o Upto(fp, k)
                   up == k < Len(fp) /\ DigVal[At(fp, k + 1)] >= 5
               IN DecOf(neg, IF up THEN NatAdd(StripZeros(co), "1") ELSE co, k)

DecText(d) ==
  IF ~d.num THEN d.txt
  ELSE LET c == IF Len(d.co) <= d.sc THEN PadLeft(d.co, d.sc + 1)
                ELSE d.co
           n == Len(c)
       IN (IF d.neg THEN "-" ELSE "") \o Upto(c, n - d.sc)
            \o (IF d.sc > 0 THEN "." \o From(c, n - d.sc + 1) ELSE "")

\* d + t for a small integer text t ("24" or "-24"); text is left alone.
\* Where the sum does not fit, the numeral is kept as it is, as text.
DecShift(d, t) ==
  IF ~d.num THEN d
  ELSE IF d.co = "0" THEN DecOf(Neg(t), Mag(t), 0)
  ELSE LET a == (IF d.neg THEN "-" ELSE "") \o d.co
           b == (IF Neg(t) THEN "-" ELSE "") \o Mag(t) \o Repeat("0", d.sc)
           r == TxtAdd(a, b)
       IN IF NatLeq(Mag(r), CoMax) THEN DecOf(Neg(r), Mag(r), d.sc) ELSE Verb(DecText(d))

\* canonical printed form of a decimal field
CanonDec(s) == DecText(Dec(s))
\* equality of decimals as values (0.5 = 0.50)
DecIsZero(d) == d.num /\ d.co = "0"
=============================================================================
