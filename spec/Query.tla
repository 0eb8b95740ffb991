------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* Evaluation of a path over a document.                                   *)
(* Results: [t, s, r, a] with t the result type, s the string value, r the *)
(* raw source and a the items of an array.                                 *)
(* o = [ci] selects case-insensitive name matching.                        *)
(***************************************************************************)
EXTENDS Paths, Pattern

(* at most this many elements are looked at or returned by one step *)
MaxResults == 1000
Cap(s) == IF Len(s) > MaxResults THEN SubSeq(s, 1, MaxResults) ELSE s

R(t, s, r) == [t |-> t, s |-> s, r |-> r, a |-> <<>>]
Null == R("null", <<>>, <<>>)
Arr(rs) == [t |-> "arr", s |-> <<>>, r |-> <<>>, a |-> rs]
NumR(n) == R("num", NatToBytes(n), <<>>)

ElemR(d, n) == R("elem", Unescape(TextOf(d, n)), Content(d, n))
TextR(d, n) == R("str", Unescape(DirectOf(d, n)), Content(d, n))
AttrR(v) == R("attr", v, v)

Unwrap(rs) == IF rs = <<>> THEN Null ELSE IF Len(rs) = 1 THEN rs[1] ELSE Arr(rs)
Flat(r) == IF r.t = "null" THEN <<>> ELSE IF r.t = "arr" THEN r.a ELSE <<r>>

(* string value of a result; arrays print as a JSON-like list *)
RECURSIVE StrOf(_)
QuoteByte(c) == IF c = DQ THEN <<BSL, DQ>> ELSE IF c = BSL THEN <<BSL, BSL>> ELSE <<c>>
Quoted(s) == <<DQ>> \o Concat([i \in 1..Len(s) |-> QuoteByte(s[i])]) \o <<DQ>>
JoinItems(a) == Concat([i \in 1..Len(a) |-> (IF i > 1 THEN <<COMMA>> ELSE <<>>) \o Quoted(StrOf(a[i]))])
StrOf(r) == IF r.t = "null" THEN <<>>
            ELSE IF r.t = "arr" THEN <<LBR>> \o JoinItems(r.a) \o <<RBR>>
            ELSE r.s

SegMatch(seg, name, o) == CASE seg.t = "el" -> NameMatch(seg.v, name, o.ci)
                            [] seg.t \in {"wc", "rw"} -> TRUE
                            [] OTHER -> FALSE

Matches(F, seg, o) == SelectSeq(F, LAMBDA n : SegMatch(seg, n.name, o))

(* <<>> or <<value>> *)
AttrLookup(n, name, o) ==
  IF o.ci
  THEN LET S == FoldNames(n, Lower(name)) IN IF S = {} THEN <<>> ELSE <<AttrVal(n, MinName(S))>>
  ELSE IF HasAttr(n, name) THEN <<AttrVal(n, name)>> ELSE <<>>

(* numeric comparison applies to decimal numerals only *)
NumericOps == {<<LT>>, <<GT>>, <<LT, EQ>>, <<GT, EQ>>}
Compare(op, x, y) ==
  LET a == ParseNum(x)
      b == ParseNum(y)
  IN /\ a.ok /\ b.ok
     /\ CASE op = <<LT>> -> NumLess(a, b)
          [] op = <<GT>> -> NumLess(b, a)
          [] op = <<LT, EQ>> -> ~NumLess(b, a)
          [] op = <<GT, EQ>> -> ~NumLess(a, b)

FieldOne(d, m, fx, o) ==
  CASE fx.i = 2 -> LET v == AttrLookup(m, fx.v, o) IN IF v = <<>> THEN <<>> ELSE <<AttrR(v[1])>>
    [] fx.i = 1 -> LET t == DirectOf(d, m) IN IF t = <<>> THEN <<>> ELSE <<R("str", Unescape(t), t)>>
    [] OTHER -> LET ms == Matches(Elems(m.kids), Seg("el", fx.v, <<>>), o)
                IN [i \in 1..Len(ms) |-> ElemR(d, ms[i])]
FieldX(d, ms, fx, o) ==
  LET add(x, m) == x \o FieldOne(d, m, fx, o)
  IN Arr(Cap(Fold(add, <<>>, ms)))

RECURSIVE Exec(_, _, _, _, _), ExecFirst(_, _, _, _, _, _), ExecFlat(_, _, _, _, _),
          Deep(_, _, _, _, _), DeepElems(_, _, _), Keep(_, _, _)

(* does the filter accept element m of document d? *)
Accepts(d, m, f) ==
  LET isAttr == f.path[1] = AT
      p == ParsePath(f.path)
      r == IF ~p.ok THEN Null ELSE Exec(d, Elems(m.kids), p.segs, 1, [ci |-> FALSE])
      name == Tail(f.path)
      exists == IF isAttr THEN HasAttr(m, name) ELSE r.t # "null"
      v == IF isAttr THEN AttrVal(m, name) ELSE StrOf(r)
  IN /\ exists
     /\ CASE f.op = <<>> -> TRUE
          [] f.op = <<EQ, EQ>> -> v = f.val
          [] f.op = <<BANG, EQ>> -> v # f.val
          [] f.op \in NumericOps -> Compare(f.op, v, f.val)
          [] f.op = <<PCT>> -> PatternAccepts(v, f.val, FALSE)
          [] f.op = <<BANG, PCT>> -> PatternAccepts(v, f.val, TRUE)

Keep(d, F, f) == SelectSeq(F, LAMBDA m : Accepts(d, m, f))

(* value of the segments from k on, relative to one element *)
Rest(d, m, S, k, o) ==
  CASE k > Len(S) -> ElemR(d, m)
    [] S[k].t = "at" -> LET v == AttrLookup(m, S[k].v, o)
                        IN IF v # <<>> /\ k = Len(S) THEN AttrR(v[1]) ELSE Null
    [] S[k].t = "tx" -> TextR(d, m)
    [] S[k].t = "fx" -> FieldX(d, <<m>>, S[k], o)
    [] OTHER -> Exec(d, Elems(m.kids), S, k, o)

(* first element whose rest is not Null *)
ExecFirst(d, ms, S, k, o, i) ==
  IF i > Len(ms) THEN Null
  ELSE LET r == Exec(d, Elems(ms[i].kids), S, k, o)
       IN IF r.t # "null" THEN r ELSE ExecFirst(d, ms, S, k, o, i + 1)

(* concatenation over all elements *)
ExecFlat(d, ms, S, k, o) ==
  LET add(x, m) == x \o Flat(Rest(d, m, S, k, o))
  IN Fold(add, <<>>, ms)

EmptyField(d, ms, S, k, o) ==
  /\ \E j \in k..Len(S) : S[j].t = "fx"
  /\ \E i \in 1..Len(ms) : Rest(d, ms[i], S, k, o).t = "arr"

IndexStep(d, ms, S, k, o) ==     \* S[k] is the index
  IF S[k].i < 0 \/ S[k].i >= Len(ms) THEN Null
  ELSE LET m == ms[S[k].i + 1]
       IN IF k < Len(S) /\ S[k + 1].t = "fx"
          THEN Arr(<<>>)                       \* a field needs an array before it
          ELSE Rest(d, m, S, k + 1, o)

FilterStep(d, ms, S, k, o) ==    \* S[k] is the filter, ms the accepted elements
  IF ms = <<>> THEN Null
  ELSE IF ~S[k].all THEN Rest(d, ms[1], S, k + 1, o)
  ELSE IF k = Len(S) THEN Arr([i \in 1..Len(ms) |-> ElemR(d, ms[i])])
  ELSE IF S[k + 1].t = "fx" THEN FieldX(d, ms, S[k + 1], o)
  ELSE Unwrap(ExecFlat(d, ms, S, k + 1, o))

(* recursive wildcard: elements at any depth, those below before the element *)
DeepElems(F, seg, o) ==
  LET add(x, m) == x \o DeepElems(Elems(m.kids), seg, o) \o (IF SegMatch(seg, m.name, o) THEN <<m>> ELSE <<>>)
  IN Fold(add, <<>>, F)

(* S[k] is what is searched for: a name or wildcard that a filter may follow, or a filter *)
Deep(d, F, S, k, o) ==
  LET j == IF S[k].t # "fi" /\ k < Len(S) /\ S[k + 1].t = "fi" THEN k + 1 ELSE k
      els == DeepElems(F, IF S[k].t = "fi" THEN Seg("wc", <<>>, <<>>) ELSE S[k], o)
      ms == IF S[j].t # "fi" THEN els ELSE Keep(d, els, S[j].f)
  IN ExecFlat(d, IF S[j].t = "fi" /\ ~S[j].all /\ ms # <<>> THEN <<ms[1]>> ELSE ms, S, j + 1, o)

Exec(d, F, S, k, o) ==
  LET seg == S[k]
      last == k = Len(S)
      all == Matches(F, seg, o)
      ms == Cap(all)
      nt == IF last THEN "end" ELSE S[k + 1].t
  IN IF k > Len(S) THEN Null
     ELSE CASE seg.t = "fi" -> FilterStep(d, Cap(Keep(d, F, seg.f)), S, k, o)
       [] seg.t = "fx" -> Arr(<<>>)
       [] seg.t \in {"ix", "ct", "tx", "at"} -> Null
       [] seg.t = "rw" -> IF last THEN Null ELSE Unwrap(Cap(Deep(d, F, S, k + 1, o)))
       [] seg.t = "wc" ->
            LET fl == ExecFlat(d, ms, S, k + 1, o)
            IN IF fl = <<>> /\ EmptyField(d, ms, S, k + 1, o) THEN Arr(<<>>) ELSE Unwrap(fl)
       [] seg.t = "el" ->
            CASE nt = "fx" -> IF k = 1 /\ ~o.ci /\ ms = <<>> THEN Null ELSE FieldX(d, ms, S[k + 1], o)
              [] nt = "fi" -> FilterStep(d, Keep(d, ms, S[k + 1].f), S, k + 1, o)
              [] nt = "ct" -> IF ms = <<>> THEN Null ELSE NumR(Len(ms))
              [] ms = <<>> -> Null
              [] nt = "ix" -> IndexStep(d, ms, S, k + 1, o)
              [] nt \in {"end", "at", "tx"} -> Rest(d, ms[1], S, k + 1, o)
              [] OTHER -> ExecFirst(d, all, S, k + 1, o, 1)
=============================================================================
