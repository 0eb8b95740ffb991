-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* Concrete syntax trees of well-formed documents and element content.     *)
(* A tree keeps the source positions of every element, so an edit is a     *)
(* splice of the source bytes and everything outside it is kept by         *)
(* construction.                                                           *)
(***************************************************************************)
EXTENDS Bytes

MaxNsPrefix == 256

OpenComment == B("<!--")   CloseComment == B("-->")
OpenCData == B("<![CDATA[") CloseCData == B("]]>")
OpenDecl == B("<!")  OpenPI == B("<?")  OpenClose == B("</")
DoctypeLower == B("<!doctype")

IsDoctype(d, i) == i + 8 <= Len(d) /\ Lower(SubSeq(d, i, i + 8)) = DoctypeLower
IsMarkup(d, i) == At(d, i, OpenDecl) \/ At(d, i, OpenPI)

(* position after a DOCTYPE: first '>' outside square brackets *)
RECURSIVE DoctypeEnd(_, _, _)
DoctypeEnd(d, i, depth) ==
  IF i > Len(d) THEN i
  ELSE IF d[i] = LBR THEN DoctypeEnd(d, i + 1, depth + 1)
  ELSE IF d[i] = RBR THEN DoctypeEnd(d, i + 1, depth - 1)
  ELSE IF d[i] = GT /\ depth = 0 THEN i + 1
  ELSE DoctypeEnd(d, i + 1, depth)

After(d, p, i) == LET j == FindSeq(d, p, i) IN IF j = 0 THEN Len(d) + 1 ELSE j + Len(p)

(* position after the comment, CDATA section, PI or declaration at i *)
MarkupEnd(d, i) ==
  IF At(d, i, OpenComment) THEN After(d, CloseComment, i + 4)
  ELSE IF At(d, i, OpenCData) THEN After(d, CloseCData, i + 9)
  ELSE IF IsDoctype(d, i) THEN DoctypeEnd(d, i + 9, 0)
  ELSE After(d, <<GT>>, i + 2)

SkipWs(d, i) == IF i > Len(d) THEN i
                ELSE LET j == FindFirst(d, LAMBDA x : ~IsWs(x), i) IN IF j = 0 THEN Len(d) + 1 ELSE j

NameEnds == {32, 9, 10, 13, SLASH, GT}
AttrNameEnds == NameEnds \cup {EQ}
OrEnd(d, j) == IF j = 0 THEN Len(d) + 1 ELSE j

(* attributes of an opening tag, from position i: [a, p] with a a sequence of
   <<name, value>> (entities resolved) and p the position of '/' or '>'       *)
RECURSIVE Attrs(_, _)
Attrs(d, i0) ==
  LET i == SkipWs(d, i0)
  IN IF i > Len(d) \/ d[i] \in {GT, SLASH} THEN [a |-> <<>>, p |-> i]
     ELSE LET ne == OrEnd(d, FindAny(d, AttrNameEnds, i))
              eq == SkipWs(d, ne)
              q  == SkipWs(d, eq + 1)
          IN IF ne = i \/ eq > Len(d) \/ d[eq] # EQ \/ q > Len(d) THEN [a |-> <<>>, p |-> eq]
             ELSE LET ve == IF d[q] \in {DQ, SQ} THEN OrEnd(d, FindByte(d, d[q], q + 1))
                            ELSE OrEnd(d, FindAny(d, NameEnds, q))
                      v  == IF d[q] \in {DQ, SQ} THEN SubSeq(d, q + 1, ve - 1)
                            ELSE SubSeq(d, q, ve - 1)
                      r  == Attrs(d, IF d[q] \in {DQ, SQ} THEN ve + 1 ELSE ve)
                  IN [a |-> <<<<SubSeq(d, i, ne - 1), Unescape(v)>>>> \o r.a, p |-> r.p]

(* Sequence of nodes from i to the enclosing closing tag (or the end).
   Element: [k="e", s, e, cs, ce, name, attrs, self, kids]
     s..e-1 is the element, cs..ce-1 its content.
   Text:    [k="t", s, e]                                                    *)
(* Parsing keeps the position p and the stack of open elements, the document
   itself at the bottom; every step takes one token.                         *)
Frame(s, cs, name, attrs) == [s |-> s, cs |-> cs, name |-> name, attrs |-> attrs, kids |-> <<>>]
Node(f, ce, e, self) == [k |-> "e", s |-> f.s, e |-> e, cs |-> f.cs, ce |-> ce, name |-> f.name,
                         attrs |-> f.attrs, self |-> self, kids |-> f.kids]
AddKid(fs, n) == [fs EXCEPT ![Len(fs)].kids = Append(@, n)]
Pop(fs, ce, e) == AddKid(SubSeq(fs, 1, Len(fs) - 1), Node(fs[Len(fs)], ce, e, FALSE))

Token(d, st) ==
  LET i == st.p
  IN IF i > Len(d) THEN st
     ELSE IF d[i] # LT
          THEN LET j == OrEnd(d, FindByte(d, LT, i))
               IN [st EXCEPT !.p = j, !.fs = AddKid(@, [k |-> "t", s |-> i, e |-> j])]
     ELSE IF At(d, i, OpenClose)
          THEN LET e == OrEnd(d, FindByte(d, GT, i))
                   e1 == IF e > Len(d) THEN e ELSE e + 1
               IN IF Len(st.fs) = 1 THEN [st EXCEPT !.p = Len(d) + 1]
                  ELSE [st EXCEPT !.p = e1, !.fs = Pop(@, i, e1)]
     ELSE IF IsMarkup(d, i) THEN [st EXCEPT !.p = MarkupEnd(d, i)]
     ELSE LET ne == OrEnd(d, FindAny(d, NameEnds, i + 1))
              at == Attrs(d, ne)
              self == at.p <= Len(d) /\ d[at.p] = SLASH
              cs == IF self THEN at.p + 2 ELSE at.p + 1
              f == Frame(i, cs, SubSeq(d, i + 1, ne - 1), at.a)
          IN [st EXCEPT !.p = cs, !.fs = IF self THEN AddKid(@, Node(f, cs, cs, TRUE)) ELSE Append(@, f)]

Count(d, c) == Len(SelectSeq(d, LAMBDA x : x = c))
TokenBound(d) == Upto(2 * Count(d, LT) + 1)

(* elements still open at the end (only in malformed documents) end there *)
RECURSIVE CloseAll(_, _)
CloseAll(fs, e) == IF Len(fs) = 1 THEN fs[1].kids ELSE CloseAll(Pop(fs, e, e), e)

Parse(d) == LET step(st, n) == Token(d, st)
                r == Fold(step, [p |-> 1, fs |-> <<Frame(1, 1, <<>>, <<>>)>>], TokenBound(d))
            IN CloseAll(r.fs, Len(d) + 1)

Elems(ns) == SelectSeq(ns, LAMBDA x : x.k = "e")

Content(d, n) == SubSeq(d, n.cs, n.ce - 1)

(* all text below, and text directly inside (markup contributes nothing) *)
RECURSIVE AllText(_, _)
AllText(d, ns) ==
  LET add(x, n) == x \o (IF n.k = "t" THEN SubSeq(d, n.s, n.e - 1) ELSE AllText(d, n.kids))
  IN Fold(add, <<>>, ns)
DirectText(d, ns) ==
  LET add(x, n) == IF n.k = "t" THEN x \o SubSeq(d, n.s, n.e - 1) ELSE x
  IN Fold(add, <<>>, ns)

TextOf(d, n) == Trim(AllText(d, n.kids))
DirectOf(d, n) == Trim(DirectText(d, n.kids))

(* attributes as a map: a later duplicate wins *)
RECURSIVE LastAttr(_, _, _)
LastAttr(as, name, i) == IF i < 1 THEN 0 ELSE IF as[i][1] = name THEN i ELSE LastAttr(as, name, i - 1)
HasAttr(n, name) == LastAttr(n.attrs, name, Len(n.attrs)) # 0
AttrVal(n, name) == n.attrs[LastAttr(n.attrs, name, Len(n.attrs))][2]
AttrNames(n) == {n.attrs[i][1] : i \in 1..Len(n.attrs)}

(* case-insensitive lookup: the name that sorts first *)
FoldNames(n, lname) == {a \in AttrNames(n) : Lower(a) = lname}
MinName(S) == CHOOSE a \in S : \A b \in S : a = b \/ Less(a, b)

SortNames(S) == SortSeq(SX!SetToSeq(S), Less)

(* namespace prefixes are matched as plain strings *)
SplitNs(name) ==
  LET c == FindByte(name, COLON, 1)
  IN IF c = 0 \/ c - 1 > MaxNsPrefix \/ (\E i \in 1..(c - 1) : name[i] < 32 \/ name[i] = 127)
     THEN <<<<>>, name>>
     ELSE <<SubSeq(name, 1, c - 1), SubSeq(name, c + 1, Len(name))>>

NameMatch(pname, ename, ci) ==
  LET p == SplitNs(IF ci THEN Lower(pname) ELSE pname)
      e == SplitNs(IF ci THEN Lower(ename) ELSE ename)
  IN IF p[1] # <<>> THEN p = e ELSE p[2] = e[2]
=============================================================================
