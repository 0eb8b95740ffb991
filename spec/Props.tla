------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, stated over one call: state s = [d, reg], operation op, *)
(* outcome out.  Holds is evaluated on the specification's own transitions *)
(* (Explore) and on the outcomes observed from the implementation (Trace). *)
(* The formulas avoid the operators that define the outcomes where a       *)
(* second, more direct formulation exists.                                 *)
(***************************************************************************)
EXTENDS Api

(* ---- what is left open ---- *)
Queries == {"get", "getmany", "conv", "flu", "map"}

(* invalid UTF-8, and numerals with underscores *)
Conts(s, i, n) == i + n <= Len(s) /\ \A j \in (i + 1)..(i + n) : s[j] \in 128..191
Leads(c) == CASE c \in 194..223 -> 1 [] c \in 224..239 -> 2 [] c \in 240..244 -> 3 [] OTHER -> 0
Utf8Ok(s) == \A i \in 1..Len(s) :
  \/ s[i] < 128
  \/ Leads(s[i]) > 0 /\ Conts(s, i, Leads(s[i]))
  \/ s[i] \in 128..191 /\ \E n \in 1..3 : i > n /\ Leads(s[i - n]) >= n
Underscored(s) == \E i \in 2..(Len(s) - 1) : s[i] = USCORE /\ IsDigit(s[i - 1]) /\ IsDigit(s[i + 1])
OddText(r) == IF r.t = "arr" THEN \E i \in 1..Len(r.a) : ~Utf8Ok(r.a[i].s) ELSE Underscored(r.s)

(* the order of different items with equal sort keys, and @pretty outside its domain *)
ModsOf(p) == LET r == ParsePath(p) IN IF r.ok THEN r.segs[Len(r.segs)].mods ELSE <<>>
RECURSIVE TieFrom(_, _, _, _)
TieFrom(r, ms, reg, j) ==
  IF j > Len(ms) \/ r.t = "null" THEN FALSE
  ELSE IF ms[j] = NSort /\ r.t = "arr"
          /\ \/ \E x \in 1..Len(r.a) : SpecialNum(r.a[x].s) # <<>> \/ Underscored(r.a[x].s)
             \/ \E x, y \in 1..Len(r.a) : x < y /\ r.a[x] # r.a[y]
                   /\ ~KeyLess(r.a, r.a[x], r.a[y]) /\ ~KeyLess(r.a, r.a[y], r.a[x])
       THEN TRUE
  ELSE IF (ms[j] = NPretty /\ ~PrettyDomain(r)) \/ (ms[j] = NUgly /\ ~UglyDomain(r)) THEN TRUE
  ELSE TieFrom(ApplyOne(r, ms[j], reg), ms, reg, j + 1)
Base(d, p, o) == LET r == ParsePath(p) IN IF ~r.ok THEN Null ELSE Exec(d, Elems(Parse(d)), r.segs, 1, o)
Tied(d, p, o, reg) == LET ms == ModsOf(p)
                      IN {ms[j] : j \in 1..Len(ms)} \cap {NSort, NPretty, NUgly} # {} /\ TieFrom(Base(d, p, o), ms, reg, 1)
AnyTie(s, op) ==
  CASE op.op \in {"get", "conv", "map"} -> Tied(s.d, op.p, Opt(op), s.reg)
    [] op.op = "flu" -> \/ Tied(s.d, op.p, Opt(op), s.reg)
                        \/ LET r == Get(s.d, op.p, Opt(op), s.reg)
                           IN r.t = "elem" /\ Tied(r.r, op.p2, Opt(op), s.reg)
    [] op.op = "getmany" -> \E j \in 1..Len(op.ps) : Tied(s.d, op.ps[j], CS, s.reg)
    [] OTHER -> FALSE

(* queries over byte strings that are not documents only have to answer *)
(* calls marked free have paths outside the documented syntax               *)
Free(op) == "free" \in DOMAIN op
Unspecified(s, op) == Free(op) \/ (op.op \in Queries /\ ((s.d # <<>> /\ ~IsValid(s.d)) \/ AnyTie(s, op)))
                      \/ (op.op = "conv" /\ OddText(Get(s.d, op.p, Opt(op), s.reg)))

KindOf(op) == CASE op \in Edits -> "doc" [] op = "getmany" -> "many" [] op = "conv" -> "conv"
                [] op = "map" -> "map" [] op = "valid" -> "valid" [] op \in {"get", "flu"} -> "res"
                [] OTHER -> "st"

(* what any answer looks like *)
RECURSIVE Sane(_)
Sane(r) == /\ r.t \in {"null", "str", "num", "elem", "attr", "arr", "true", "false"}
           /\ r.t = "null" => r = Null
           /\ r.t # "arr" => r.a = <<>>
           /\ r.t = "arr" => r.s = <<>>
           /\ Len(r.a) <= MaxResults
           /\ \A i \in 1..Len(r.a) : Sane(r.a[i])
Some(op) == CASE op.op = "setmany" -> op.ps # <<>> /\ Len(op.ps) = Len(op.vs) [] op.op = "delmany" -> op.ps # <<>> [] OTHER -> TRUE
Answer(s, op, out) ==
  /\ out.k = KindOf(op.op)
  /\ out.k = "res" => Sane(out.r)
  /\ out.k = "many" => Len(out.rs) = Len(op.ps) /\ \A i \in 1..Len(out.rs) : Sane(out.rs[i])
  /\ out.k = "map" => \A i \in 1..Len(out.m) : Sane(out.m[i].r)
  /\ out.k = "conv" => \A i \in 1..Len(out.items) : Sane(out.items[i])
  /\ out.k = "doc" =>
       /\ ~out.mut
       /\ out.err \in {"ok", "malformed", "path", "value"}
       /\ out.err # "ok" => out.d = s.d
       /\ (s.d # <<>> /\ ~IsValid(s.d) /\ Some(op)) => out.err \in {"malformed"} \cup (IF op.op = "setraw" THEN {"value"} ELSE {})
       /\ (IsValid(s.d) /\ op.op \in {"set", "setraw", "del"}) => out.err # "malformed"
       /\ (IsValid(s.d) /\ op.op \in {"del", "delmany"} /\ out.err = "ok") => IsValid(out.d) \/ Elems(Parse(out.d)) = <<>>

----------------------------------------------------------------------------
(* Selections: every element a path of names, indexes and * denotes, in
   document order, by plain recursion over the tree.                         *)
RECURSIVE Sel(_, _, _, _), SelIn(_, _, _, _, _)
Sel(F, S, k, o) ==
  LET ms == Matches(F, S[k], o)
  IN IF k < Len(S) /\ S[k + 1].t = "ix"
     THEN IF S[k + 1].i < 0 \/ S[k + 1].i >= Len(ms) THEN <<>>
          ELSE SelIn(<<ms[S[k + 1].i + 1]>>, S, k + 2, o, 1)
     ELSE SelIn(ms, S, k + 1, o, 1)
SelIn(ms, S, k, o, i) ==
  IF i > Len(ms) THEN <<>>
  ELSE (IF k > Len(S) THEN <<ms[i]>> ELSE Sel(Elems(ms[i].kids), S, k, o)) \o SelIn(ms, S, k, o, i + 1)

Roots(d) == Elems(Parse(d))
Types(S) == {S[i].t : i \in 1..Len(S)}
SegsOf(p) == LET r == ParsePath(p) IN IF r.ok THEN r.segs ELSE <<>>
Plain(S) == S # <<>> /\ Types(S) \subseteq {"el", "ix"} /\ S[1].t = "el"
            /\ \A i \in 1..(Len(S) - 1) : ~(S[i].t = "ix" /\ S[i + 1].t = "ix")

RECURSIVE CountAll(_), CountFrom(_, _)
CountFrom(ns, i) == IF i > Len(ns) THEN 0
                    ELSE (IF ns[i].k = "e" THEN 1 + CountAll(ns[i].kids) ELSE 0) + CountFrom(ns, i + 1)
CountAll(ns) == CountFrom(ns, 1)
Size(d) == CountAll(Parse(d))

RECURSIVE DeepAll(_, _)
DeepAll(F, i) == IF i > Len(F) THEN <<>>
                 ELSE <<F[i]>> \o DeepAll(Elems(F[i].kids), 1) \o DeepAll(F, i + 1)
Everywhere(d) == DeepAll(Roots(d), 1)

SameBefore(a, b, p) == p - 1 <= Len(b) /\ SubSeq(a, 1, p - 1) = SubSeq(b, 1, p - 1)
SameAfter(a, b, q) == LET n == Len(a) - q + 1
                      IN n <= Len(b) /\ SubSeq(a, q, Len(a)) = SubSeq(b, Len(b) - n + 1, Len(b))

(* ---- edits: where a path points ---- *)
Success(op, out) == op.op \in Edits /\ out.err = "ok"
IsSet(op) == op.op = "set" /\ op.v.k # "nil"
Textual(op) == op.v.k \in {"str", "lit"}
IsAttrPath(S) == S # <<>> /\ S[Len(S)].t = "at"
IsAppend(S) == S # <<>> /\ S[Len(S)].t = "ix" /\ S[Len(S)].i = -1
Target(S) == IF IsAttrPath(S) THEN Take(S, Len(S) - 1) ELSE S
(* the longest existing prefix of an element path, as a sequence of one or no node *)
RECURSIVE NearestFrom(_, _, _, _)
NearestFrom(d, S, o, i) == IF i < 1 THEN <<>>
                           ELSE LET l == Sel(Roots(d), Take(S, i), 1, o)
                                IN IF l # <<>> THEN <<l[1]>> ELSE NearestFrom(d, S, o, i - 1)
PathOf(op) == EditPath(op.p, EOpt(op))
KidsNamed(n, seg, o) == Matches(Elems(n.kids), seg, o)

P01(s, op, out) ==
  (Success(op, out) /\ IsSet(op) /\ Textual(op) /\ Plain(PathOf(op)) /\ ~IsAppend(PathOf(op))) =>
     LET r == Get(out.d, op.p, Opt(op), NoReg)
     IN r.t = "elem" /\ r.s = Trim(op.v.v) /\ r.r = Written(op.v)

P02(s, op, out) ==
  (Success(op, out) /\ IsSet(op) /\ Textual(op) /\ IsAttrPath(PathOf(op))) =>
     Get(out.d, op.p, Opt(op), NoReg) = AttrR(op.v.v)

P03(s, op, out) ==
  (Success(op, out) /\ op.op \in {"set", "setraw", "del"} /\ s.d # <<>> /\ Plain(Target(PathOf(op)))) =>
     LET S == Target(PathOf(op))
         o == EOpt(op)
         to == IF IsAppend(S) THEN Take(S, Len(S) - 2) ELSE S
         at == NearestFrom(s.d, to, o, Len(to))
         n == at[1]
     IN IF at = <<>>
        THEN \E p \in 1..(Len(s.d) + 1) : SameBefore(s.d, out.d, p) /\ SameAfter(s.d, out.d, p)
        ELSE /\ SameBefore(s.d, out.d, n.s)
             /\ SameAfter(s.d, out.d, n.e)
             /\ IsAttrPath(PathOf(op)) /\ Sel(Roots(s.d), S, 1, o) # <<>> => SameAfter(s.d, out.d, n.cs)
             /\ IsSet(op) /\ ~IsAttrPath(PathOf(op)) /\ ~n.self
                  => SameBefore(s.d, out.d, n.cs) /\ SameAfter(s.d, out.d, n.ce)

P04(s, op, out) ==
  (Success(op, out) /\ IsSet(op) /\ Textual(op) /\ Plain(Target(PathOf(op))) /\ ~IsAppend(PathOf(op))) =>
     LET S == Target(PathOf(op))
         o == EOpt(op)
         have == CHOOSE i \in 0..Len(S) :
                   /\ i = 0 \/ Sel(Roots(s.d), Take(S, i), 1, o) # <<>>
                   /\ \A j \in (i + 1)..Len(S) : Sel(Roots(s.d), Take(S, j), 1, o) = <<>>
     IN have < Len(S) =>
          /\ Size(out.d) = Size(s.d) + Len(S) - have
          /\ Sel(Roots(out.d), S, 1, o) # <<>>

P05(s, op, out) ==
  (Success(op, out) /\ IsSet(op) /\ Textual(op) /\ IsAppend(PathOf(op))) =>
     LET S == Take(PathOf(op), Len(PathOf(op)) - 1)
         o == EOpt(op)
         par == Take(S, Len(S) - 1)
         Group(d) == IF par = <<>> THEN Matches(Roots(d), S[1], o)
                     ELSE LET l == Sel(Roots(d), par, 1, o) IN IF l = <<>> THEN <<>> ELSE KidsNamed(l[1], S[Len(S)], o)
         old == Group(s.d)
         new == Group(out.d)
     IN /\ Len(new) = Len(old) + 1
        /\ Content(out.d, new[Len(new)]) = Written(op.v)
        /\ \A i \in 1..Len(old) : Content(out.d, new[i]) = Content(s.d, old[i])

P06(s, op, out) ==
  (Success(op, out) /\ op.op = "del") =>
     LET S == PathOf(op)
         o == EOpt(op)
         l == IF Plain(Target(S)) THEN Sel(Roots(s.d), Target(S), 1, o) ELSE <<>>
     IN IF l = <<>> THEN out.d = s.d
        ELSE IF IsAttrPath(S)
             THEN /\ Having(Sel(Roots(out.d), Target(S), 1, o)[1], S[Len(S)].v, o) = {}
                  /\ Having(l[1], S[Len(S)].v, o) = {} => out.d = s.d
                  /\ Size(out.d) = Size(s.d)
             ELSE /\ Size(out.d) = Size(s.d) - 1 - CountAll(l[1].kids)
                  /\ Len(out.d) = Len(s.d) - (l[1].e - l[1].s)

P07(s, op, out) ==
  (op.op \in Edits) => /\ out.err \in {"ok", "malformed", "path", "value"}
                       /\ out.err # "ok" => out.d = s.d
                       /\ ~out.mut
                       /\ (s.d # <<>> /\ ~IsValid(s.d)) => out.err # "ok" \/ out.d = s.d

Named(p) == \A i \in 1..Len(ParsePath(p).segs) : ParsePath(p).segs[i].t = "el" => ValidName(ParsePath(p).segs[i].v)
NamedOnly(op) == CASE op.op \in {"setmany", "delmany"} -> \A i \in 1..Len(op.ps) : Named(op.ps[i])
                   [] op.op \in {"set", "setraw", "del"} -> Named(op.p)
                   [] OTHER -> TRUE
P08(s, op, out) ==
  (Success(op, out) /\ NamedOnly(op) /\ (s.d = <<>> \/ IsValid(s.d))) => IsValid(out.d) \/ Roots(out.d) = <<>>

(* batches: the composition of the single calls, or nothing at all *)
RECURSIVE Compose(_, _, _, _)
Compose(d, ps, vs, i) ==
  IF i > Len(ps) THEN OkDoc(d)
  ELSE LET r == IF vs = <<>> THEN DeleteDoc(d, ps[i], DefOpt) ELSE SetDoc(d, ps[i], vs[i], DefOpt)
       IN IF r.err # "ok" THEN r ELSE Compose(r.d, ps, vs, i + 1)
Unrepeated(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i] # ps[j]
P09(s, op, out) ==
  /\ op.op = "setmany" /\ Len(op.ps) = Len(op.vs) =>
       LET c == Compose(s.d, op.ps, op.vs, 1)
       IN out.err = c.err /\ out.d = (IF c.err = "ok" THEN c.d ELSE s.d)
  /\ op.op = "delmany" /\ Unrepeated(op.ps) =>
       LET c == Compose(s.d, op.ps, <<>>, 1)
       IN out.err = c.err /\ out.d = (IF c.err = "ok" THEN c.d ELSE s.d)

P10(s, op, out) ==
  (op.op = "setraw") =>
     IF out.err = "ok"
     THEN /\ RawOK(op.raw)
          /\ IsValid(out.d)
          /\ (Plain(PathOf(op)) /\ ~IsAppend(PathOf(op))) => Get(out.d, op.p, CS, NoReg).r = op.raw
     ELSE out.d = s.d /\ (~RawOK(op.raw) => out.err = "value")

----------------------------------------------------------------------------
(* Queries *)
IsGet(op) == op.op = "get"

P11(s, op, out) ==
  (IsGet(op) /\ Plain(SegsOf(op.p)) /\ ModsOf(op.p) = <<>>) =>
     LET l == Sel(Roots(s.d), SegsOf(op.p), 1, Opt(op))
     IN out.r = IF l = <<>> THEN Null ELSE ElemR(s.d, l[1])

P12(s, op, out) ==
  (IsGet(op) /\ ModsOf(op.p) = <<>>) =>
     LET S == SegsOf(op.p)
         all == Everywhere(s.d)
     IN /\ (S # <<>> /\ Types(S) = {"wc"}) =>
             LET l == Sel(Roots(s.d), S, 1, Opt(op))
             IN out.r = Unwrap([i \in 1..Len(l) |-> ElemR(s.d, l[i])])
        /\ (Len(S) = 2 /\ S[1].t = "rw" /\ S[2].t \in {"el", "wc"}) =>
             LET l == SelectSeq(all, LAMBDA n : SegMatch(S[2], n.name, Opt(op)))
             IN /\ Len(Flat(out.r)) = Len(l)
                /\ \A i \in 1..Len(l) : ElemR(s.d, l[i]) \in {Flat(out.r)[j] : j \in 1..Len(l)}

(* a filter for all keeps exactly the accepted elements, the plain one the first of them *)
P13(s, op, out) ==
  (IsGet(op) /\ ModsOf(op.p) = <<>>) =>
     LET S == SegsOf(op.p)
         n == Len(S)
         deep == SelectSeq(Everywhere(s.d), LAMBDA m : (n = 3 => SegMatch(S[2], m.name, Opt(op))) /\ Accepts(s.d, m, S[n].f))
     IN
     /\ (n \in {2, 3} /\ S[1].t = "rw" /\ S[n].t = "fi" /\ (n = 3 => S[2].t = "el")) =>
          LET l == Flat(out.r)
              rs == {ElemR(s.d, deep[i]) : i \in 1..Len(deep)}
          IN /\ Len(l) = IF S[n].all \/ deep = <<>> THEN Len(deep) ELSE 1
             /\ \A i \in 1..Len(l) : l[i] \in rs
             /\ S[n].all => \A r \in rs : \E i \in 1..Len(l) : l[i] = r
     /\ (n = 2 /\ S[1].t = "el" /\ S[2].t = "fi") =>
          LET ms == Matches(Roots(s.d), S[1], Opt(op))
              ok == SelectSeq(ms, LAMBDA m : Accepts(s.d, m, S[2].f))
          IN IF S[2].all
             THEN out.r = IF ok = <<>> THEN Null ELSE Arr([i \in 1..Len(ok) |-> ElemR(s.d, ok[i])])
             ELSE out.r = IF ok = <<>> THEN Null ELSE ElemR(s.d, ok[1])

(* a name as a path segment *)
EscName(v) == Concat([i \in 1..Len(v) |-> IF v[i] \in {DOT, BSL} THEN <<BSL, v[i]>> ELSE <<v[i]>>])

(* a field of each element, in order: what the single queries give *)
RECURSIVE Singles(_, _, _, _, _)
Singles(s, p, fx, i, n) ==
  IF i >= n THEN <<>>
  ELSE LET q == p \o <<DOT>> \o NatToBytes(i) \o
                <<DOT>> \o (CASE fx.i = 1 -> <<PCT>> [] fx.i = 2 -> <<AT>> \o fx.v [] OTHER -> fx.v)
           r == Get(s.d, q, CS, NoReg)
       IN (IF fx.i = 0 THEN FieldOne(s.d, Matches(Roots(s.d), SegsOf(p)[1], CS)[i + 1], fx, CS)
           ELSE IF r.t = "null" \/ (fx.i = 1 /\ r.s = <<>>) THEN <<>> ELSE <<r>>)
          \o Singles(s, p, fx, i + 1, n)
P14(s, op, out) ==
  (IsGet(op) /\ ModsOf(op.p) = <<>> /\ ~op.ci) =>
     LET S == SegsOf(op.p)
     IN (Len(S) = 2 /\ S[1].t = "el" /\ S[2].t = "fx" /\ out.r.t # "null") =>
          LET ms == Matches(Roots(s.d), S[1], CS)
              one == Singles(s, EscName(S[1].v), S[2], 0, Len(ms))
          IN out.r.t = "arr" /\ [i \in 1..Len(out.r.a) |-> out.r.a[i].s] = [i \in 1..Len(one) |-> one[i].s]

(* every element that has the field is accepted by exactly one of % and !% *)
P15(s, op, out) ==
  (IsGet(op) /\ ModsOf(op.p) = <<>>) =>
     LET S == SegsOf(op.p)
     IN (Len(S) = 2 /\ S[1].t = "el" /\ S[2].t = "fi" /\ S[2].all /\ S[2].f.op \in {<<PCT>>, <<BANG, PCT>>}) =>
          LET ms == Matches(Roots(s.d), S[1], Opt(op))
              other == IF S[2].f.op = <<PCT>> THEN <<BANG, PCT>> ELSE <<PCT>>
              has == SelectSeq(ms, LAMBDA m : Accepts(s.d, m, [S[2].f EXCEPT !.op = <<>>]))
              no == SelectSeq(ms, LAMBDA m : Accepts(s.d, m, [S[2].f EXCEPT !.op = other]))
          IN (\A i \in 1..Len(ms) : (ms[i].e - ms[i].s) * Len(S[2].f.val) <= MaxIterations)
               => Len(Flat(out.r)) + Len(no) = Len(has)

WithoutLast(p) == LET b == CHOOSE i \in 1..Len(p) : p[i] = BAR /\ \A j \in (i + 1)..Len(p) : p[j] # BAR
                  IN Take(p, b - 1)
Perm(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                 {j \in 1..Len(a) : a[j] = a[i]} # {} /\
                 Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
P16(s, op, out) ==
  (IsGet(op) /\ ModsOf(op.p) # <<>> /\ Len(ModsOf(op.p)) <= MaxModChain) =>
     LET ms == ModsOf(op.p)
         m == ms[Len(ms)]
         r == Get(s.d, WithoutLast(op.p), Opt(op), s.reg)
     IN (\A j \in 1..Len(op.p) : op.p[j] # 92) /\ Len(ModsOf(WithoutLast(op.p))) = Len(ms) - 1 =>
        CASE r.t = "null" -> out.r = r
          [] m = NReverse /\ r.t = "arr" -> Len(out.r.a) = Len(r.a) /\ \A i \in 1..Len(r.a) : out.r.a[i] = r.a[Len(r.a) + 1 - i]
          [] m = NSort /\ r.t = "arr" -> Perm(r.a, out.r.a) /\ \A i \in 1..(Len(r.a) - 1) : ~KeyLess(r.a, out.r.a[i + 1], out.r.a[i])
          [] m = NFirst /\ r.t = "arr" /\ r.a # <<>> -> out.r = r.a[1]
          [] m = NLast /\ r.t = "arr" /\ r.a # <<>> -> out.r = r.a[Len(r.a)]
          [] m \in {NReverse, NSort, NFirst, NLast, NFlatten} /\ r.t # "arr" -> out.r = r
          [] OTHER -> TRUE

(* an element path is its names, whatever was escaped *)
RECURSIVE JoinNames(_, _)
JoinNames(S, i) == IF i > Len(S) THEN <<>>
                   ELSE (IF i > 1 THEN <<DOT>> ELSE <<>>) \o EscName(S[i].v) \o JoinNames(S, i + 1)
P17(s, op, out) ==
  (IsGet(op) /\ ModsOf(op.p) = <<>>) =>
     LET S == SegsOf(op.p)
     IN (S # <<>> /\ Types(S) = {"el"}) =>
           LET q == JoinNames(S, 1)
           IN /\ [i \in 1..Len(S) |-> S[i].v] = [i \in 1..Len(SegsOf(q)) |-> SegsOf(q)[i].v]
              /\ out.r = Get(s.d, q, Opt(op), s.reg)

(* a name without prefix matches any prefix, one with a prefix only that prefix *)
LocalOf(n) == LET c == FindByte(n, COLON, 1) IN IF c = 0 THEN n ELSE SubSeq(n, c + 1, Len(n))
P18(s, op, out) ==
  (IsGet(op) /\ ~op.ci /\ ModsOf(op.p) = <<>>) =>
     LET S == SegsOf(op.p)
     IN (Len(S) = 2 /\ S[1].t = "rw" /\ S[2].t = "el" /\ Len(S[2].v) < 200) =>
          LET v == S[2].v
              l == SelectSeq(Everywhere(s.d), LAMBDA n : IF ContainsByte(v, COLON) THEN n.name = v ELSE LocalOf(n.name) = v)
          IN Len(Flat(out.r)) = Len(l)

(* the spelling of names is irrelevant when case is ignored *)
P19(s, op, out) ==
  /\ (IsGet(op) /\ op.ci /\ ModsOf(op.p) = <<>> /\ ~Contains(op.p, FilterOpen)) =>
        out = Res(Get(s.d, Lower(op.p), CI, s.reg))
  /\ (op.op \in {"set", "del"} /\ op.ci /\ out.err = "ok") =>
        LET o == EOpt(op) IN out.d = (IF op.op = "del" THEN DeleteDoc(s.d, Lower(op.p), o).d
                                      ELSE SetDoc(s.d, Lower(op.p), op.v, o).d)

P20(s, op, out) ==
  (op.op = "conv") =>
     /\ ~out.ex => out.items = <<>> /\ out.s = <<>> /\ out.i = Zero /\ out.f = Zero /\ ~out.b
     /\ out.ia => out.i = Zero /\ out.f = Zero /\ ~out.b
     /\ (out.ex /\ ~out.ia) => Len(out.items) = 1 /\ out.items[1].s = out.s
     /\ (out.i # Zero /\ out.f # <<>>) => out.f = out.i \/ (out.vk = "float" /\ HasPrefix(out.f, out.i \o <<DOT>>))
     /\ (out.vk = "float" /\ out.b) = (out.vk = "float" /\ out.f # Zero)
     /\ (out.vk = "bool") => out.i = out.f /\ out.i = (IF out.b THEN One ELSE Zero)
     /\ (out.f # Zero /\ ~ContainsByte(out.f, DOT) /\ out.f # <<>> /\ out.i # Zero) => out.i = out.f

P21(s, op, out) ==
  (op.op = "flu" /\ ModsOf(op.p) = <<>> /\ ModsOf(op.p2) = <<>>) =>
     LET S == SegsOf(op.p)
         T == SegsOf(op.p2)
     IN (Plain(S) /\ Plain(T)) =>
          LET l == Sel(Roots(s.d), S, 1, Opt(op))
          IN IF l = <<>> THEN out.r = Null
             ELSE LET k == Sel(Elems(l[1].kids), T, 1, Opt(op))
                  IN out.r = IF k = <<>> THEN Null ELSE ElemR(s.d, k[1])

(* well-formedness is compositional; a rejection points into the document *)
P23(s, op, out) ==
  (op.op = "valid") =>
     IF out.ok
     THEN out.line = 0 /\ IsValid(s.d \o s.d)
     ELSE /\ out.line >= 1 /\ out.col >= 0
          /\ out.line <= 1 + Cardinality({i \in 1..Len(s.d) : s.d[i] = NL})
          /\ out.col <= Len(s.d)

(* limits: a path too long names nothing, answers are bounded, edits stay inside *)
P24(s, op, out) ==
  /\ (op.op \in {"get", "set", "del", "setraw"} /\ Len(PathParts(op.p)) > MaxSegments) =>
        IF op.op = "get" THEN out.r = Null ELSE out.err # "ok" /\ out.d = s.d
  /\ IsGet(op) => /\ Len(out.r.a) <= MaxResults
                  /\ (Len(ModsOf(op.p)) > MaxModChain => out.r = Null \/ out.r = Arr(<<>>))
                  /\ (out.r.t = "num" => NatOf(out.r.s) <= MaxResults)
  /\ (op.op \in Edits /\ out.err = "ok") => IsValid(out.d) \/ Roots(out.d) = <<>>

(* answers on any input *)
P28(s, op, out) == out.k # "st" => Answer(s, op, out)

(* the registry: what is built in stays, names are taken and freed *)
P25(s, op, out) ==
  /\ (op.op = "reg" /\ out.ok) => op.name # <<>> /\ op.name \notin Builtins \cup DOMAIN s.reg
  /\ (op.op = "reg" /\ ~out.ok) => op.name = <<>> \/ op.name \in Builtins \cup DOMAIN s.reg
  /\ (op.op = "unreg") => out.ok = (op.name \notin Builtins)
  /\ (op.op = "has" /\ op.name \in Builtins) => out.ok

(* five entities and nothing else are resolved, exactly once *)
P27(s, op, out) ==
  /\ (Success(op, out) /\ IsSet(op) /\ op.v.k = "str" /\ Plain(Target(PathOf(op))) /\ ~IsAppend(PathOf(op))) =>
        LET S == PathOf(op)
            l == Sel(Roots(out.d), Target(S), 1, EOpt(op))
        IN /\ l # <<>>
           /\ ~IsAttrPath(S) => /\ ~ContainsAny(Content(out.d, l[1]), {LT, GT})
                                /\ Unescape(Content(out.d, l[1])) = op.v.v
           /\ IsAttrPath(S) => Get(out.d, op.p, Opt(op), NoReg) = AttrR(op.v.v)
  /\ (IsGet(op) /\ ModsOf(op.p) = <<>> /\ Plain(SegsOf(op.p)) /\ out.r.t = "elem" /\ ~ContainsByte(out.r.r, LT)) =>
        out.r.s = Trim(Unescape(out.r.r))

(* indentation only adds line breaks and indent between new tags *)
DropWs(d) == SelectSeq(d, LAMBDA c : ~IsWs(c))
P29(s, op, out) ==
  (op.op = "set" /\ out.err = "ok") =>
     LET o == [EOpt(op) EXCEPT !.indent = <<>>]
         plain == SetDoc(s.d, op.p, op.v, o)
     IN plain.err = "ok" /\ DropWs(out.d) = DropWs(plain.d)

Holds(pid, s, op, out) ==
  IF out.k # KindOf(op.op) THEN FALSE
  ELSE CASE pid = "P01" -> P01(s, op, out) [] pid = "P02" -> P02(s, op, out)
         [] pid = "P03" -> P03(s, op, out) [] pid = "P04" -> P04(s, op, out)
         [] pid = "P05" -> P05(s, op, out) [] pid = "P06" -> P06(s, op, out)
         [] pid = "P07" -> P07(s, op, out) [] pid = "P08" -> P08(s, op, out)
         [] pid = "P09" -> P09(s, op, out) [] pid = "P10" -> P10(s, op, out)
         [] pid = "P11" -> P11(s, op, out) [] pid = "P12" -> P12(s, op, out)
         [] pid = "P13" -> P13(s, op, out) [] pid = "P14" -> P14(s, op, out)
         [] pid = "P15" -> P15(s, op, out) [] pid = "P16" -> P16(s, op, out)
         [] pid = "P17" -> P17(s, op, out) [] pid = "P18" -> P18(s, op, out)
         [] pid = "P19" -> P19(s, op, out) [] pid = "P20" -> P20(s, op, out)
         [] pid = "P21" -> P21(s, op, out) [] pid = "P23" -> P23(s, op, out)
         [] pid = "P24" -> P24(s, op, out) [] pid = "P25" -> P25(s, op, out)
         [] pid = "P28" -> P28(s, op, out)
         [] pid = "P27" -> P27(s, op, out) [] pid = "P29" -> P29(s, op, out)
         [] pid = "ALL" -> /\ P01(s, op, out) /\ P02(s, op, out) /\ P03(s, op, out) /\ P04(s, op, out)
                           /\ P05(s, op, out) /\ P06(s, op, out) /\ P07(s, op, out) /\ P08(s, op, out)
                           /\ P09(s, op, out) /\ P10(s, op, out) /\ P11(s, op, out) /\ P12(s, op, out)
                           /\ P13(s, op, out) /\ P14(s, op, out) /\ P15(s, op, out) /\ P16(s, op, out)
                           /\ P17(s, op, out) /\ P18(s, op, out) /\ P19(s, op, out) /\ P20(s, op, out)
                           /\ P21(s, op, out) /\ P23(s, op, out) /\ P24(s, op, out) /\ P27(s, op, out) /\ P29(s, op, out)
         [] OTHER -> TRUE
=============================================================================
