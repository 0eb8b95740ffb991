-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* Editing operations: Set, SetRaw, Delete and their batch forms.          *)
(* An outcome is [err, d]; err = "ok" or the sentinel error, and d the     *)
(* document returned, which is the input whenever an error is reported.    *)
(* o = [ci, indent].                                                       *)
(***************************************************************************)
EXTENDS Modifiers

OkDoc(d) == [err |-> "ok", d |-> d]
Fail(e, d) == [err |-> e, d |-> d]

DefOpt == [ci |-> FALSE, indent |-> <<>>]

(* names in a path are folded when matching ignores case *)
FoldSegs(S, o) == IF ~o.ci THEN S
                  ELSE [i \in 1..Len(S) |-> IF S[i].t \in {"el", "at"}
                                            THEN [S[i] EXCEPT !.v = Lower(S[i].v)] ELSE S[i]]
EditPath(p, o) == LET r == ParsePath(p) IN IF r.ok THEN FoldSegs(r.segs, o) ELSE <<>>

----------------------------------------------------------------------------
(* The element an edit works on: <<>> or <<node>>.  An index picks exactly
   that match; a name tries its matches in document order.                   *)
RECURSIVE Find(_, _, _, _), FindIn(_, _, _, _, _)
Find(F, S, k, o) ==
  IF k > Len(S) THEN <<>>
  ELSE LET ms == Matches(F, S[k], o)
       IN IF k < Len(S) /\ S[k + 1].t = "ix"
          THEN LET ix == S[k + 1].i
               IN IF ix < 0 \/ ix >= Len(ms) THEN <<>>
                  ELSE IF k + 2 > Len(S) THEN <<ms[ix + 1]>>
                  ELSE Find(Elems(ms[ix + 1].kids), S, k + 2, o)
          ELSE IF k = Len(S) THEN (IF ms = <<>> THEN <<>> ELSE <<ms[1]>>)
          ELSE FindIn(ms, S, k, o, 1)
FindIn(ms, S, k, o, i) ==
  IF i > Len(ms) THEN <<>>
  ELSE LET r == Find(Elems(ms[i].kids), S, k + 1, o)
       IN IF r # <<>> THEN r ELSE FindIn(ms, S, k, o, i + 1)

Locate(d, S, o) == Find(Elems(Parse(d)), S, 1, o)

----------------------------------------------------------------------------
Before(d, p) == SubSeq(d, 1, p - 1)
From(d, p) == SubSeq(d, p, Len(d))
Splice(d, p, q, new) == Before(d, p) \o new \o From(d, q)   \* replaces p..q-1

Open(name) == <<LT>> \o name \o <<GT>>
Close(name) == OpenClose \o name \o <<GT>>

RECURSIVE AttrText(_, _)
AttrText(ps, i) == IF i > Len(ps) THEN <<>>
                   ELSE <<SP>> \o ps[i][1] \o <<EQ, DQ>> \o ps[i][2] \o <<DQ>> \o AttrText(ps, i + 1)
(* attributes in name order, values escaped *)
AttrList(n) == LET names == SortNames(AttrNames(n))
               IN [i \in 1..Len(names) |-> <<names[i], Escape(AttrVal(n, names[i]))>>]

(* rewrite only the opening tag *)
ReTag(d, n, ps) == Splice(d, n.s, n.cs, <<LT>> \o n.name \o AttrText(ps, 1)
                                        \o (IF n.self THEN <<SLASH, GT>> ELSE <<GT>>))
(* <a/> becomes <a>inner</a> *)
Expand(d, n, inner) == Splice(d, n.s, n.e, <<LT>> \o n.name \o AttrText(AttrList(n), 1) \o <<GT>>
                                           \o inner \o Close(n.name))

SameAttr(a, b, o) == IF o.ci THEN Lower(a) = Lower(b) ELSE a = b
Having(n, a, o) == {x \in AttrNames(n) : SameAttr(x, a, o)}

SetAttr(d, n, a, v, o) ==
  LET have == Having(n, a, o)
      names == SortNames(AttrNames(n) \cup (IF have = {} THEN {a} ELSE {}))
  IN IF have = {} /\ Cardinality(AttrNames(n)) >= MaxAttrs THEN Fail("path", d)
     ELSE OkDoc(ReTag(d, n, [i \in 1..Len(names) |->
              <<names[i], IF SameAttr(names[i], a, o) THEN v ELSE Escape(AttrVal(n, names[i]))>>]))

DelAttr(d, n, a, o) ==
  LET names == SortNames(AttrNames(n) \ Having(n, a, o))
  IN IF Having(n, a, o) = {} THEN OkDoc(d)
     ELSE OkDoc(ReTag(d, n, [i \in 1..Len(names) |-> <<names[i], Escape(AttrVal(n, names[i]))>>]))

Creatable(S) == \A i \in 1..Len(S) : S[i].t = "el" /\ S[i].v # <<>>

Pad(o, n) == IF o.indent = <<>> THEN <<>> ELSE <<NL>> \o RepeatBytes(o.indent, n)

RECURSIVE Opens(_, _, _), Closes(_, _)
Opens(S, i, o) == IF i > Len(S) THEN <<>> ELSE Pad(o, i - 1) \o Open(S[i].v) \o Opens(S, i + 1, o)
Closes(S, i) == IF i < 1 THEN <<>> ELSE Close(S[i].v) \o Closes(S, i - 1)
Chain(S, v, o) == Opens(S, 1, o) \o v \o Closes(S, Len(S))

(* longest proper prefix of the path that exists: its length, 0 if none *)
RECURSIVE DeepestFrom(_, _, _, _)
DeepestFrom(F, S, o, i) == IF i < 1 THEN 0
                           ELSE IF Find(F, Take(S, i), 1, o) # <<>> THEN i
                           ELSE DeepestFrom(F, S, o, i - 1)

Create(d, S, v, o) ==
  LET i == IF d = <<>> THEN 0 ELSE DeepestFrom(Elems(Parse(d)), S, o, Len(S) - 1)
      rest == Drop(S, i)
      new == Chain(rest, v, o)
      n == Locate(d, Take(S, i), o)[1]
  IN IF S = <<>> \/ ~Creatable(rest) THEN Fail("path", d)
     ELSE IF i = 0 THEN OkDoc(d \o new)
     ELSE IF n.self THEN OkDoc(Expand(d, n, new))
     ELSE OkDoc(Splice(d, n.ce, n.ce, new))

(* S ends with the element to append; the -1 has been removed *)
LastEnd(F, seg, o, dflt) == LET ms == Matches(F, seg, o)
                            IN IF ms = <<>> THEN dflt ELSE ms[Len(ms)].e
AppendTo(d, S, v, o) ==
  LET seg == S[Len(S)]
      par == Take(S, Len(S) - 1)
      loc == Locate(d, par, o)
      n == loc[1]
      elem == Open(seg.v) \o v \o Close(seg.v)
      at == LastEnd(Elems(n.kids), seg, o, n.ce)
  IN IF S = <<>> \/ seg.t # "el" THEN Fail("path", d)
     ELSE IF par = <<>>
          THEN LET p == LastEnd(Elems(Parse(d)), seg, o, Len(d) + 1) IN OkDoc(Splice(d, p, p, elem))
     ELSE IF loc = <<>> THEN Create(d, S, v, o)
     ELSE IF n.self THEN OkDoc(Expand(d, n, elem))
     ELSE OkDoc(Splice(d, at, at, (IF at > n.cs THEN Pad(o, Len(SelectSeq(par, LAMBDA x : x.t # "ix"))) ELSE <<>>) \o elem))

----------------------------------------------------------------------------
(* Values: [k, v] with k one of
     "nil" (deletes)  "str" (escaped)  "lit" (number or boolean, written as is)
     "raw" (bytes inserted unescaped)  "bad" (unsupported type)              *)
QuoteRaw(v) == Concat([i \in 1..Len(v) |-> IF v[i] = DQ THEN EQuot ELSE <<v[i]>>])
Written(val) == IF val.k = "str" THEN Escape(val.v) ELSE val.v

IndexOK(S) == \A i \in 1..Len(S) : S[i].t = "ix" => S[i].i >= 0 \/ (S[i].i = -1 /\ i = Len(S))

DeleteDoc(d, path, o) ==
  LET S == EditPath(path, o)
      n == Len(S)
      isAttr == S[n].t = "at"
      loc == Locate(d, IF isAttr THEN Take(S, n - 1) ELSE S, o)
  IN IF ~IsValid(d) THEN Fail("malformed", d)
     ELSE IF S = <<>> \/ (isAttr /\ n < 2) THEN Fail("path", d)
     ELSE IF loc = <<>> THEN OkDoc(d)
     ELSE IF isAttr THEN DelAttr(d, loc[1], S[n].v, o)
     ELSE OkDoc(Splice(d, loc[1].s, loc[1].e, <<>>))

SetPath(d, S, val, o) ==
  LET n == Len(S)
      v == Written(val)
      av == IF val.k = "raw" THEN QuoteRaw(v) ELSE v
      isAttr == S[n].t = "at"
      ep == IF isAttr THEN Take(S, n - 1) ELSE S
      loc == Locate(d, ep, o)
  IN IF ~IndexOK(S) THEN Fail("path", d)
     ELSE IF S[n].t = "ix" /\ S[n].i = -1 THEN AppendTo(d, Take(S, n - 1), v, o)
     ELSE IF isAttr /\ ~ValidName(S[n].v) THEN Fail("path", d)
     ELSE IF isAttr /\ loc # <<>> THEN SetAttr(d, loc[1], S[n].v, av, o)
     ELSE IF isAttr
          THEN LET c == Create(d, ep, <<>>, o)
               IN IF c.err # "ok" THEN Fail(c.err, d)
                  ELSE LET l == Locate(c.d, ep, o) \* no element if the name is not one
                       IN IF l = <<>> THEN Fail("path", d) ELSE SetAttr(c.d, l[1], S[n].v, av, o)
     ELSE IF loc = <<>> THEN Create(d, S, v, o)
     ELSE IF loc[1].self THEN OkDoc(Expand(d, loc[1], v))
     ELSE OkDoc(Splice(d, loc[1].cs, loc[1].ce, v))

SetDoc(d, path, val, o) ==
  LET S == EditPath(path, o)
      r == SetPath(d, S, val, o)
  IN IF d # <<>> /\ ~IsValid(d) THEN Fail("malformed", d)
     ELSE IF val.k = "nil" THEN DeleteDoc(d, path, o)
     ELSE IF S = <<>> THEN Fail("path", d)
     ELSE IF val.k = "bad" THEN Fail("value", d)
     ELSE IF r.err # "ok" THEN Fail(r.err, d)
     ELSE IF val.k = "raw" /\ ~IsValid(r.d) THEN Fail("value", d)
     ELSE r

(* fragments SetRaw takes: well-formed element content without document type
   or entity declarations and without nested CDATA openings                  *)
EntityLower == B("<!entity")
Wrapped(raw, name) == Open(name) \o raw \o Close(name)
RECURSIVE TagEnd(_, _), Forbidden(_, _)
TagEnd(d, i) == IF i > Len(d) THEN i
                ELSE IF d[i] = GT THEN i + 1
                ELSE IF d[i] \in {DQ, SQ} THEN TagEnd(d, OrEnd(d, FindByte(d, d[i], i + 1)) + 1)
                ELSE TagEnd(d, i + 1)
Forbidden(d, i0) ==
  LET i == FindByte(d, LT, i0)
  IN IF i = 0 THEN FALSE
     ELSE IF IsDoctype(d, i) \/ (i + 7 <= Len(d) /\ Lower(SubSeq(d, i, i + 7)) = EntityLower) THEN TRUE
     ELSE IF At(d, i, OpenCData)
          THEN LET e == MarkupEnd(d, i)
               IN Contains(SubSeq(d, i + 9, e - 4), OpenCData) \/ Forbidden(d, e)
     ELSE IF IsMarkup(d, i) THEN Forbidden(d, MarkupEnd(d, i))
     ELSE Forbidden(d, TagEnd(d, i + 1))
(* content of an element whatever its name: a fragment cannot close its parent *)
RawOK(raw) == IsValid(Wrapped(raw, B("a"))) /\ IsValid(Wrapped(raw, B("b"))) /\ ~Forbidden(raw, 1)

SetRawDoc(d, path, raw) ==
  IF ~RawOK(raw) THEN Fail("value", d)
  ELSE SetDoc(d, path, [k |-> "raw", v |-> raw], DefOpt)

----------------------------------------------------------------------------
RECURSIVE SetAll(_, _, _, _), DeleteAll(_, _, _, _)
SetAll(d, ps, vs, i) ==
  IF i > Len(ps) THEN OkDoc(d)
  ELSE LET r == SetDoc(d, ps[i], vs[i], DefOpt)
       IN IF r.err # "ok" THEN r ELSE SetAll(r.d, ps, vs, i + 1)
SetManyDoc(d, ps, vs) ==
  IF Len(ps) # Len(vs) THEN Fail("path", d)
  ELSE LET r == SetAll(d, ps, vs, 1) IN IF r.err = "ok" THEN r ELSE Fail(r.err, d)

DeleteAll(d, ps, i, seen) ==
  IF i > Len(ps) THEN OkDoc(d)
  ELSE IF ps[i] \in seen THEN DeleteAll(d, ps, i + 1, seen)
  ELSE LET r == DeleteDoc(d, ps[i], DefOpt)
       IN IF r.err # "ok" THEN r ELSE DeleteAll(r.d, ps, i + 1, seen \cup {ps[i]})
DeleteManyDoc(d, ps) ==
  LET r == DeleteAll(d, ps, 1, {}) IN IF r.err = "ok" THEN r ELSE Fail(r.err, d)
=============================================================================
