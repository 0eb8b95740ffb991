------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings as sequences of integers 0..255, and the character-level   *)
(* functions everything else is built from: searching, trimming, entity    *)
(* escaping, ASCII case folding, ordering and exact decimal numbers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Loops are written as folds where they may be long: TLC evaluates a fold
   without nesting, while a recursion costs more the deeper it is.            *)
SX == INSTANCE SequencesExt
Fold(Op(_, _), base, s) == SX!FoldLeft(Op, base, s)
Upto(n) == [i \in 1..n |-> i]

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharSet == {SubSeq(Printable, i, i) : i \in 1..Len(Printable)}
CharCode == [c \in CharSet |-> 31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]

(* TLA+ string literal (printable ASCII) to byte sequence *)
B(str) == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]

LT == 60   GT == 62   SLASH == 47   BANG == 33   QM == 63   EQ == 61
DQ == 34   SQ == 39   AMP == 38     DOT == 46    BSL == 92  HASH == 35
AT == 64   PCT == 37  STAR == 42    LPAR == 40   RPAR == 41 BAR == 124
MINUS == 45  PLUS == 43  COLON == 58  USCORE == 95  LBR == 91  RBR == 93
NL == 10   COMMA == 44  SP == 32

IsWs(c)    == c \in {32, 9, 10, 13}             \* XML white space
IsGoWs(c)  == c \in {32, 9, 10, 11, 12, 13}     \* what trimming removes (ASCII part)
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)

(* first index >= i holding byte c, 0 if none *)
FindFirst(s, Test(_), i) ==
  IF i > Len(s) THEN 0
  ELSE IF Test(s[i]) THEN i
  ELSE LET j == SX!SelectInSeq(SubSeq(s, i, Len(s)), Test) IN IF j = 0 THEN 0 ELSE j + i - 1
FindByte(s, c, i) == FindFirst(s, LAMBDA x : x = c, i)
FindAny(s, cs, i) == FindFirst(s, LAMBDA x : x \in cs, i)

(* does p occur in s at position i? *)
At(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
               /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]

HasPrefix(s, p) == At(s, 1, p)
HasSuffix(s, p) == Len(s) >= Len(p) /\ At(s, Len(s) - Len(p) + 1, p)

(* first index >= i at which p occurs, 0 if none (p non-empty) *)
RECURSIVE FindSeq(_, _, _)
FindSeq(s, p, i) ==
  LET j == FindByte(s, p[1], i)
  IN IF j = 0 THEN 0 ELSE IF At(s, j, p) THEN j ELSE FindSeq(s, p, j + 1)

ContainsByte(s, c) == \E i \in 1..Len(s) : s[i] = c
ContainsAny(s, cs) == \E i \in 1..Len(s) : s[i] \in cs
Contains(s, p) == FindSeq(s, p, 1) # 0

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

TrimLPos(s, i) == LET j == FindFirst(s, LAMBDA x : ~IsGoWs(x), i) IN IF j = 0 THEN Len(s) + 1 ELSE j
RECURSIVE TrimRPos(_, _)
TrimRPos(s, j) == IF j < 1 THEN j ELSE IF IsGoWs(s[j]) THEN TrimRPos(s, j - 1) ELSE j
Trim(s) == SubSeq(s, TrimLPos(s, 1), TrimRPos(s, Len(s)))

Lower(s) == [i \in 1..Len(s) |-> IF IsUpper(s[i]) THEN s[i] + 32 ELSE s[i]]

(* byte-wise lexicographic order *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i > Len(b) THEN FALSE
                     ELSE IF i > Len(a) THEN TRUE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i]
                     ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)

Concat(ss) == Fold(LAMBDA x, y : x \o y, <<>>, ss)

RepeatBytes(s, n) == Concat([i \in 1..n |-> s])

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) == LET j == FindByte(s, c, i)
                      IN IF j = 0 THEN <<SubSeq(s, i, Len(s))>>
                         ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, c, j + 1)
Split(s, c) == SplitFrom(s, c, 1)

----------------------------------------------------------------------------
(* Entities: exactly the five predefined ones, one pass, nothing else. *)
EAmp == B("&amp;")   ELt == B("&lt;")   EGt == B("&gt;")
EQuot == B("&quot;") EApos == B("&apos;")

Special == {AMP, LT, GT, DQ, SQ}
EscByte(c) == CASE c = AMP -> EAmp [] c = LT -> ELt [] c = GT -> EGt
                [] c = DQ -> EQuot [] c = SQ -> EApos [] OTHER -> <<c>>

RECURSIVE EscFrom(_, _)
EscFrom(s, i) ==
  LET j == FindAny(s, Special, i)
  IN IF j = 0 THEN SubSeq(s, i, Len(s))
     ELSE SubSeq(s, i, j - 1) \o EscByte(s[j]) \o EscFrom(s, j + 1)
Escape(s) == EscFrom(s, 1)

RECURSIVE UnescFrom(_, _)
UnescFrom(s, i) ==
  LET j == FindByte(s, AMP, i)
  IN IF j = 0 THEN SubSeq(s, i, Len(s))
     ELSE SubSeq(s, i, j - 1) \o
          (IF At(s, j, ELt) THEN <<LT>> \o UnescFrom(s, j + 4)
           ELSE IF At(s, j, EGt) THEN <<GT>> \o UnescFrom(s, j + 4)
           ELSE IF At(s, j, EQuot) THEN <<DQ>> \o UnescFrom(s, j + 6)
           ELSE IF At(s, j, EApos) THEN <<SQ>> \o UnescFrom(s, j + 6)
           ELSE IF At(s, j, EAmp) THEN <<AMP>> \o UnescFrom(s, j + 5)
           ELSE <<AMP>> \o UnescFrom(s, j + 1))
Unescape(s) == UnescFrom(s, 1)

----------------------------------------------------------------------------
(* Integers in decimal *)
RECURSIVE NatToBytes(_)
NatToBytes(n) == IF n < 10 THEN <<48 + n>> ELSE NatToBytes(n \div 10) \o <<48 + (n % 10)>>
IntToBytes(n) == IF n < 0 THEN <<MINUS>> \o NatToBytes(-n) ELSE NatToBytes(n)

AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])

StripLeadingZeros(s) == LET j == FindFirst(s, LAMBDA x : x # 48, 1) IN IF j = 0 THEN <<>> ELSE SubSeq(s, j, Len(s))
StripTrailingZeros(s) == SubSeq(s, 1, SX!SelectLastInSeq(s, LAMBDA x : x # 48))

RECURSIVE DigitsValue(_, _, _)
DigitsValue(s, i, acc) == IF i > Len(s) THEN acc ELSE DigitsValue(s, i + 1, 10 * acc + s[i] - 48)
(* value of a digit string of at most 9 significant digits *)
NatOf(s) == DigitsValue(StripLeadingZeros(s), 1, 0)

Zeros(n) == [i \in 1..n |-> 48]

(* Exact decimals: [ok, neg, int, frac] with int/frac canonical digit strings.
   Accepts  [+-]? digits* [. digits*]? ([eE][+-]?digits+)?  with at least one
   mantissa digit: the finite decimal numerals.                              *)
MaxExp == 330           \* beyond it: too large for a float, or zero
MaxFloatInt == 309      \* digits of the largest float, which starts with MaxFloatLead
MaxFloatLead == B("17976931348623157")
BadNum == [ok |-> FALSE, neg |-> FALSE, int |-> <<>>, frac |-> <<>>]

DigitRun(s, i) == LET j == FindFirst(s, LAMBDA x : ~IsDigit(x), i) IN IF j = 0 THEN Len(s) + 1 ELSE j

MkNum(neg, ip, fp, e) ==
  LET digs == ip \o fp
      pt == Len(ip) + e                      \* position of the decimal point
      i1 == IF pt <= 0 THEN <<>>
            ELSE IF pt >= Len(digs) THEN digs \o Zeros(pt - Len(digs))
            ELSE SubSeq(digs, 1, pt)
      f1 == IF pt <= 0 THEN Zeros(-pt) \o digs
            ELSE IF pt >= Len(digs) THEN <<>>
            ELSE SubSeq(digs, pt + 1, Len(digs))
      i2 == StripLeadingZeros(i1)
      f2 == StripTrailingZeros(f1)
  IN [ok |-> TRUE, neg |-> neg /\ (i2 # <<>> \/ f2 # <<>>), int |-> i2, frac |-> f2]

(* numerals too large for a float are not numbers, and tiny ones are zero *)
RECURSIVE LeadZeros(_, _)
LeadZeros(s, i) == IF i <= Len(s) /\ s[i] = 48 THEN LeadZeros(s, i + 1) ELSE i - 1
Finite(x) ==
  IF Len(x.int) > MaxFloatInt \/ (Len(x.int) = MaxFloatInt /\ Less(MaxFloatLead, SubSeq(x.int, 1, Len(MaxFloatLead)))) THEN BadNum
  ELSE IF x.int = <<>> /\ LeadZeros(x.frac, 1) >= 323 THEN [ok |-> TRUE, neg |-> FALSE, int |-> <<>>, frac |-> <<>>]
  ELSE x

ParseNum(s) ==
  LET n == Len(s)
      neg == n > 0 /\ s[1] = MINUS
      p0 == IF n > 0 /\ s[1] \in {MINUS, PLUS} THEN 2 ELSE 1
      p1 == DigitRun(s, p0)
      ip == SubSeq(s, p0, p1 - 1)
      dot == p1 <= n /\ s[p1] = DOT
      p2 == IF dot THEN DigitRun(s, p1 + 1) ELSE p1
      fp == IF dot THEN SubSeq(s, p1 + 1, p2 - 1) ELSE <<>>
      hasE == p2 <= n /\ s[p2] \in {101, 69}
      eneg == hasE /\ p2 + 1 <= n /\ s[p2 + 1] = MINUS
      p3 == IF hasE /\ p2 + 1 <= n /\ s[p2 + 1] \in {MINUS, PLUS} THEN p2 + 2 ELSE p2 + 1
      p4 == IF hasE THEN DigitRun(s, p3) ELSE p2
      es == IF hasE THEN SubSeq(s, p3, p4 - 1) ELSE <<>>
  IN IF ip = <<>> /\ fp = <<>> THEN BadNum
     ELSE IF hasE /\ (es = <<>> \/ p4 <= n) THEN BadNum
     ELSE IF ~hasE /\ p2 <= n THEN BadNum
     ELSE LET e == IF ~hasE THEN 0 ELSE IF Len(StripLeadingZeros(es)) > 4 THEN 9999 ELSE NatOf(es)
          IN IF StripLeadingZeros(ip \o fp) = <<>> THEN MkNum(FALSE, <<>>, <<>>, 0)
             ELSE IF e <= MaxExp THEN Finite(MkNum(neg, ip, fp, IF eneg THEN -e ELSE e))
             ELSE IF eneg THEN MkNum(FALSE, <<>>, <<>>, 0)
             ELSE BadNum

(* names of infinity and not-a-number: +Inf, -Inf, NaN, or <<>> *)
SpecialNum(s) ==
  LET signed == s # <<>> /\ s[1] \in {MINUS, PLUS}
      w == Lower(IF signed THEN Tail(s) ELSE s)
  IN IF w \in {B("inf"), B("infinity")} THEN (IF s[1] = MINUS THEN B("-Inf") ELSE B("+Inf"))
     ELSE IF w = B("nan") /\ ~signed THEN B("NaN")
     ELSE <<>>

(* magnitude order on canonical decimals *)
MagLess(a, b) ==
  IF Len(a.int) # Len(b.int) THEN Len(a.int) < Len(b.int)
  ELSE IF a.int # b.int THEN Less(a.int, b.int)
  ELSE Less(a.frac, b.frac)
SameNum(a, b) == a.neg = b.neg /\ a.int = b.int /\ a.frac = b.frac
NumLess(a, b) ==
  IF a.neg # b.neg THEN a.neg
  ELSE IF a.neg THEN MagLess(b, a) ELSE MagLess(a, b)
=============================================================================
