----------------------------- MODULE Modifiers -----------------------------
(***************************************************************************)
(* Modifier pipelines over query results.  reg maps the custom modifier    *)
(* names currently registered to one of a few behaviours (see Custom).     *)
(***************************************************************************)
EXTENDS Query

MaxModChain == 20

Builtins == {B("reverse"), B("sort"), B("first"), B("last"), B("flatten"), B("pretty"), B("ugly")}
NReverse == B("reverse")  NSort == B("sort")  NFirst == B("first")  NLast == B("last")
NFlatten == B("flatten")  NPretty == B("pretty")  NUgly == B("ugly")

RevSeq(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]

(* strings accepted as numbers for sorting *)
SortKeyNum(r) == ParseNum(r.s)
AllNumeric(a) == \A i \in 1..Len(a) : a[i].t = "num" \/ (a[i].t \in {"str", "elem", "attr"} /\ SortKeyNum(a[i]).ok)
KeyLess(a, x, y) == IF AllNumeric(a) THEN NumLess(SortKeyNum(x), SortKeyNum(y)) ELSE Less(StrOf(x), StrOf(y))

(* insertion sort, equal keys keep their order *)
RECURSIVE Ins(_, _, _)
Ins(num, x, a) == IF a = <<>> THEN <<x>>
                  ELSE IF (IF num THEN NumLess(SortKeyNum(x), SortKeyNum(a[1]))
                           ELSE Less(StrOf(x), StrOf(a[1])))
                       THEN <<x>> \o a
                  ELSE <<a[1]>> \o Ins(num, x, Tail(a))
RECURSIVE ISort(_, _)
ISort(num, a) == IF a = <<>> THEN <<>>
                 ELSE Ins(num, a[Len(a)], ISort(num, SubSeq(a, 1, Len(a) - 1)))
SortSeqR(a) == ISort(AllNumeric(a), a)

RECURSIVE FlattenOne(_, _)
FlattenOne(a, i) == IF i > Len(a) THEN <<>>
                    ELSE (IF a[i].t = "arr" THEN a[i].a ELSE <<a[i]>>) \o FlattenOne(a, i + 1)

(* @ugly drops the white space of text; tags, comments, and CDATA sections stay *)
Ugly(s) ==
  LET step(st, n) ==
        IF st.p > Len(s) THEN st
        ELSE LET t == Token(s, st)
                 v == SubSeq(s, st.p, t.p - 1)
             IN [t EXCEPT !.o = @ \o (IF s[st.p] = LT THEN v ELSE SelectSeq(v, LAMBDA c : ~IsWs(c)))]
  IN Fold(step, [p |-> 1, fs |-> <<Frame(1, 1, <<>>, <<>>)>>, o |-> <<>>], TokenBound(s)).o

(* @pretty writes every tag on a line of its own, two spaces per level, except
   a closing tag directly behind its opening tag or text; text is kept.       *)
PrettyByte(c, attr) == CASE c = DQ -> B("&#34;") [] c = SQ -> B("&#39;") [] c = AMP -> B("&amp;")
                      [] c = LT -> B("&lt;") [] c = GT -> B("&gt;") [] c = 9 -> B("&#x9;")
                      [] c = NL /\ attr -> B("&#xA;") [] OTHER -> <<c>>
PrettyText(s, attr) == Concat([i \in 1..Len(s) |-> PrettyByte(s[i], attr)])
RECURSIVE PrettyAttrs(_, _)
PrettyAttrs(as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE (IF \E j \in 1..(i - 1) : as[j][1] = as[i][1] THEN <<>>
        ELSE <<SP>> \o as[i][1] \o <<EQ, DQ>> \o PrettyText(as[i][2], TRUE) \o <<DQ>>)
       \o PrettyAttrs(as, i + 1)
(* [o, fresh, leaf]: output; nothing written by a tag yet; no tag closed since the last opened *)
RECURSIVE PrettyNodes(_, _, _, _)
PrettyLine(st, depth) == IF st.fresh THEN <<>> ELSE <<NL>> \o RepeatBytes(<<SP, SP>>, depth)
PrettyNodes(s, ns, depth, st0) ==
  LET node(st, n) ==
        IF n.k = "t" THEN [st EXCEPT !.o = @ \o PrettyText(Unescape(SubSeq(s, n.s, n.e - 1)), FALSE)]
        ELSE LET open == [o |-> st.o \o PrettyLine(st, depth) \o <<LT>> \o n.name
                                \o PrettyAttrs(n.attrs, 1) \o <<GT>>,
                          fresh |-> FALSE, leaf |-> TRUE]
                 inner == PrettyNodes(s, n.kids, depth + 1, open)
             IN [o |-> inner.o \o (IF inner.leaf THEN <<>> ELSE PrettyLine(inner, depth))
                       \o OpenClose \o n.name \o <<GT>>,
                 fresh |-> FALSE, leaf |-> FALSE]
  IN Fold(node, st0, ns)
Pretty(s) == PrettyNodes(s, Parse(s), 0, [o |-> <<>>, fresh |-> TRUE, leaf |-> FALSE]).o

(* where it is specified: plain names, no other markup, the five entities, ASCII *)
PlainName(n) == n # <<>> /\ (IsAlpha(n[1]) \/ n[1] = USCORE) /\ Lower(n) # B("xmlns")
                /\ \A i \in 1..Len(n) : IsAlpha(n[i]) \/ IsDigit(n[i]) \/ n[i] \in {USCORE, MINUS, DOT}
RECURSIVE PlainNodes(_)
PlainNodes(ns) == \A i \in 1..Len(ns) : ns[i].k = "t" \/
  (/\ PlainName(ns[i].name) /\ PlainNodes(ns[i].kids)
   /\ \A j \in 1..Len(ns[i].attrs) : PlainName(ns[i].attrs[j][1]) /\ ~ContainsByte(ns[i].attrs[j][2], LT))
PrettyDomain(r) ==
  LET s == r.r
  IN /\ ContainsByte(s, LT) => r.t = "elem"
     /\ \A i \in 1..Len(s) : s[i] \in {9, NL} \cup 32..126
     /\ ~Contains(s, OpenDecl) /\ ~Contains(s, OpenPI) /\ ~Contains(s, CloseCData)
     /\ \A i \in 1..Len(s) : s[i] = AMP => \E e \in {"&amp;", "&lt;", "&gt;", "&quot;", "&apos;"} : At(s, i, B(e))
     /\ PlainNodes(Parse(s))

(* values other than elements that look like markup *)
UglyDomain(r) == ContainsByte(r.r, LT) => r.t = "elem"

(* custom modifiers used by the drivers, by behaviour name *)
UpperByte(c) == IF IsLower(c) THEN c - 32 ELSE c
(* a number whose text is changed becomes a string *)
Texted(r) == IF r.t = "num" THEN [r EXCEPT !.t = "str", !.r = <<>>] ELSE r
PlainNumeral(s) ==
  LET p0 == IF s # <<>> /\ s[1] \in {MINUS, PLUS} THEN 2 ELSE 1
      p1 == DigitRun(s, p0)
      p2 == IF p1 <= Len(s) /\ s[p1] = DOT THEN DigitRun(s, p1 + 1) ELSE p1
  IN p1 - p0 \in 1..7 /\ p2 = Len(s) + 1 /\ (p2 = p1 \/ p2 - p1 \in 2..8)
RECURSIVE Custom(_, _)
Custom(kind, r) ==
  CASE kind \notin {"wrap", "null"} /\ r.t = "arr" -> Arr([i \in 1..Len(r.a) |-> Custom(kind, r.a[i])])
    [] kind = "upper" -> [r EXCEPT !.s = [i \in 1..Len(r.s) |-> UpperByte(r.s[i])]]
    [] kind = "null"  -> Null
    [] kind = "tag"   -> [Texted(r) EXCEPT !.s = <<LBR>> \o r.s \o <<RBR>>]
    [] kind = "yes"   -> [t |-> "true", s |-> B("true"), r |-> <<>>, a |-> <<>>]
    [] kind = "no"    -> [t |-> "false", s |-> B("false"), r |-> <<>>, a |-> <<>>]
    [] kind = "num"   -> IF PlainNumeral(r.s) THEN [t |-> "num", s |-> r.s, r |-> <<>>, a |-> <<>>] ELSE r
    [] kind = "wrap"  -> Arr(<<r>>)
    [] kind = "tag2"  -> [Texted(r) EXCEPT !.s = <<LT>> \o r.s]

RECURSIVE ApplyFrom(_, _, _, _)
ApplyOne(r, m, reg) ==
  CASE m = NReverse -> IF r.t = "arr" THEN Arr(RevSeq(r.a)) ELSE r
    [] m = NSort -> IF r.t = "arr" THEN Arr(SortSeqR(r.a)) ELSE r
    [] m = NFirst -> IF r.t = "arr" /\ r.a # <<>> THEN r.a[1] ELSE r
    [] m = NLast -> IF r.t = "arr" /\ r.a # <<>> THEN r.a[Len(r.a)] ELSE r
    [] m = NFlatten -> IF r.t # "arr" THEN r
                       ELSE LET f == FlattenOne(r.a, 1) IN IF f = <<>> THEN Null ELSE Arr(f)
    [] m = NUgly -> IF r.r = <<>> THEN r ELSE [r EXCEPT !.r = Ugly(r.r)]
    [] m = NPretty -> IF r.r = <<>> THEN r ELSE [r EXCEPT !.r = Pretty(r.r)]
    [] m \in DOMAIN reg -> Custom(reg[m], r)
    [] OTHER -> Null
ApplyFrom(r, ms, reg, i) ==
  IF i > Len(ms) THEN r
  ELSE LET q == ApplyOne(r, ms[i], reg)
       IN IF q.t = "null" THEN q ELSE ApplyFrom(q, ms, reg, i + 1)

(* modifiers of the last segment, once, to the complete result *)
Finish(r, mods, reg) ==
  IF mods = <<>> \/ r.t = "null" \/ (r.t = "arr" /\ r.a = <<>>) THEN r
  ELSE IF Len(mods) > MaxModChain THEN Null
  ELSE ApplyFrom(r, mods, reg, 1)

Get(d, path, o, reg) ==
  LET p == ParsePath(path)
  IN IF ~p.ok THEN Null
     ELSE LET r == Exec(d, Elems(Parse(d)), p.segs, 1, o)
          IN Finish([r EXCEPT !.a = Cap(r.a)], p.segs[Len(p.segs)].mods, reg)

CS == [ci |-> FALSE]
CI == [ci |-> TRUE]
NoReg == [x \in {} |-> "none"]
=============================================================================
