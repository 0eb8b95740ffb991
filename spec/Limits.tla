------------------------------- MODULE Limits -------------------------------
(***************************************************************************)
(* Limits on sizes of a megabyte and more.  Documents, values and names    *)
(* are represented by their lengths: a case says what is n bytes long (or  *)
(* n elements deep, or n elements wide) and which call is made, and the    *)
(* outcome gives the error, the length of the document returned and the    *)
(* length of the value a query reads (-1: nothing).                        *)
(* MODE=cases enumerates both sides of every limit, to be replayed on the  *)
(* implementation; MODE=trace judges recorded cases of random sizes.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

MaxDocument == 10485760
MaxValue == 5242880
MaxToken == 1048576
MaxDepth == 100
MaxSearch == 10000       \* elements one recursive search looks into

Out(err, len, got) == [k |-> "size", err |-> err, len |-> len, got |-> got]
Open == [k |-> "open"]

(* What the edits do to the length of  <!-- pad --><r><a>v</a><s/></r>  *)
Deltas == [keep |-> <<0>>, shrink |-> <<-1>>, grow |-> <<1>>, new |-> <<8>>, append |-> <<8>>, attr |-> <<6>>,
           raw |-> <<3>>, root |-> <<8>>, del |-> <<-8>>, miss |-> <<0>>, many |-> <<1, 8>>, back |-> <<8, -8>>,
           delmany |-> <<-8, 0>>, scset |-> <<4>>, scnew |-> <<11>>, scappend |-> <<11>>, scattr |-> <<6>>,
           rootappend |-> <<8>>, attrcreate |-> <<13>>]

RECURSIVE Run(_, _, _, _)
Run(n, now, ds, i) ==
  IF i > Len(ds) THEN Out("ok", now, -1)
  ELSE IF now + ds[i] > MaxDocument THEN Out("value", n, -1)
  ELSE Run(n, now + ds[i], ds, i + 1)

(* <r><a>1</a></r> is the document values are set in *)
BaseLen == 15
Growth(how, n) == CASE how \in {"set", "bytes", "raw", "many", "root"} -> n - 1
                    [] how \in {"new", "append"} -> n + 7          \* <b></b>
                    [] how = "rootappend" -> n + 7                 \* <q></q>
                    [] how = "attrnew" -> n + 5                    \* k=""
                    [] how = "attrcreate" -> n + 12                \* <b k=""></b>

(* a name of n bytes, written once in an attribute and twice in an element *)
NameGrowth(how, n) == CASE how = "attr" -> n + 5 [] OTHER -> 2 * n + 6

TokenKinds == {"name", "aname", "avalue", "pi", "comment", "cdata", "text", "doctype"}
Bounded == {"name", "aname", "avalue", "pi"}

Expected(c) ==
  CASE c.kind = "doc" ->
         CASE c.how = "get" -> Out("ok", 0, IF c.n > MaxDocument THEN -1 ELSE 1)
           [] c.how = "valid" -> Out(IF c.n > MaxDocument THEN "malformed" ELSE "ok", 0, -1)
           [] OTHER -> IF c.n > MaxDocument THEN Out("malformed", c.n, -1) ELSE Run(c.n, c.n, Deltas[c.how], 1)
    [] c.kind = "value" ->
         IF c.how \in {"attrnew", "attrcreate"}
         THEN IF c.n > MaxToken THEN Out("value", BaseLen, -1) ELSE Out("ok", BaseLen + Growth(c.how, c.n), c.n)
         ELSE IF c.n > MaxValue THEN Out("value", BaseLen, -1)
         ELSE IF c.how = "root" THEN Out("ok", c.n + 7, c.n)
         ELSE Out("ok", BaseLen + Growth(c.how, c.n), c.n)
    [] c.kind = "name" ->
         IF c.n > MaxToken THEN Out("path", BaseLen, -1) ELSE Out("ok", BaseLen + NameGrowth(c.how, c.n), 1)
    [] c.kind = "token" ->
         Out(IF c.how \in Bounded /\ c.n > MaxToken THEN "malformed" ELSE "ok", 0, -1)
    [] c.kind = "rawtoken" ->
         IF c.how \in Bounded /\ c.n > MaxToken THEN Out("value", BaseLen, -1) ELSE Out("ok", 0, -1)
    [] c.kind = "deep" -> Out("ok", 0, IF c.n > MaxDepth THEN -1 ELSE 1)
    [] c.kind = "search" -> IF c.n > MaxSearch - 100 /\ c.n < MaxSearch THEN Open
                            ELSE Out("ok", 0, IF c.n >= MaxSearch THEN -1 ELSE 1)

(* What the property says: inside the limit everything works, outside
   nothing changes.                                                          *)
LimitOf(c) == CASE c.kind = "doc" -> MaxDocument
                [] c.kind = "value" -> IF c.how \in {"attrnew", "attrcreate"} THEN MaxToken ELSE MaxValue
                [] c.kind \in {"name", "token", "rawtoken"} -> MaxToken
                [] c.kind = "deep" -> MaxDepth
                [] c.kind = "search" -> MaxSearch
Holds(c, out) ==
  /\ c.n > LimitOf(c) => out.err # "ok" \/ out.got = -1
  /\ (out.k = "size" /\ out.err # "ok") => out.got = -1
  /\ (c.kind = "doc" /\ out.err = "value") => out.len = c.n
  /\ out.k = "size" => out.len <= MaxDocument \/ out.err # "ok"

Around(n) == {n - 1, n, n + 1}
Case(kind, how, n) == [kind |-> kind, how |-> how, n |-> n]
Cases ==
  {Case("doc", h, n) : h \in {"get", "valid"}, n \in Around(MaxDocument)}
  \cup {Case("doc", h, n) : h \in DOMAIN Deltas, n \in {MaxDocument - 14, MaxDocument - 11, MaxDocument - 9, MaxDocument - 8, MaxDocument - 1, MaxDocument, MaxDocument + 1}}
  \cup {Case("value", h, n) : h \in {"set", "bytes", "raw", "many", "root", "new", "append", "rootappend"}, n \in Around(MaxValue)}
  \cup {Case("value", h, n) : h \in {"attrnew", "attrcreate"}, n \in Around(MaxToken)}
  \cup {Case("name", h, n) : h \in {"elem", "attr", "root", "append"}, n \in Around(MaxToken)}
  \cup {Case("token", h, n) : h \in TokenKinds, n \in Around(MaxToken)}
  \cup {Case("rawtoken", h, n) : h \in TokenKinds \ {"doctype"}, n \in Around(MaxToken)}
  \cup {Case("deep", "any", n) : n \in Around(MaxDepth)}
  \cup {Case("search", "any", n) : n \in {1, 1000, MaxSearch - 100, MaxSearch, MaxSearch + 1, 2 * MaxSearch}}

Tracing == IOEnv.MODE = "trace"
Recorded == IF Tracing THEN ndJsonDeserialize(IOEnv.TRACE) ELSE <<>>

VARIABLE step            \* the case just decided
NoCase == [c |-> Case("none", "none", 0), out |-> Open]

Init == step = NoCase
Enumerate == \E c \in Cases : /\ step' = [c |-> c, out |-> Expected(c)]
                              /\ PrintT(ToJson([c |-> c, exp |-> Expected(c)]))
Judge == \E i \in 1..Len(Recorded) :
           LET r == Recorded[i]
               exp == Expected(r.c)
           IN /\ step' = [c |-> r.c, out |-> exp]
              /\ IF exp # Open /\ exp # r.out THEN PrintT(ToJson([i |-> r.id, exp |-> exp])) ELSE TRUE
Next == step = NoCase /\ (IF Tracing THEN Judge ELSE Enumerate)

LimitsHold == step.out.k = "size" => Holds(step.c, step.out)
=============================================================================
