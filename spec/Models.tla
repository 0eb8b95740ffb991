------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Bounded models: for every property the documents to start from, the     *)
(* operations applied to every document reached, and the number of steps.  *)
(***************************************************************************)
EXTENDS Props

(* all concatenations of at most n members of K *)
RECURSIVE Runs(_, _)
Runs(K, n) == IF n = 0 THEN {<<>>} ELSE LET Q == Runs(K, n - 1) IN Q \cup {x \o y : x \in K, y \in Q}

Bset(S) == {B(x) : x \in S}
In(name, S) == {Open(name) \o x \o Close(name) : x \in S}
InTag(tag, name, S) == {B(tag) \o x \o Close(B(name)) : x \in S}

SeqOf(S) == SX!SetToSeq(S)

BR == B("r")

(* ---- operations ---- *)
Op0 == [op |-> "none", ci |-> FALSE, ind |-> <<>>, via |-> 0]
GetOp(p) == [p |-> p, op |-> "get"] @@ Op0
ConvOp(p) == [p |-> p, op |-> "conv"] @@ Op0
MapOp(p) == [p |-> p, op |-> "map"] @@ Op0
FluOp(p, q) == [p |-> p, p2 |-> q, op |-> "flu"] @@ Op0
SetOp(p, v) == [p |-> p, v |-> v, op |-> "set"] @@ Op0
DelOp(p) == [p |-> p, op |-> "del"] @@ Op0
RawOp(p, f) == [p |-> p, raw |-> f, op |-> "setraw"] @@ Op0
ManyOp(ps, vs) == [ps |-> ps, vs |-> vs, op |-> "setmany"] @@ Op0
DelManyOp(ps) == [ps |-> ps, op |-> "delmany"] @@ Op0
GetManyOp(ps) == [ps |-> ps, op |-> "getmany"] @@ Op0
ValidOp == [op |-> "valid"] @@ Op0
RegOp(name, kind) == [name |-> name, kind |-> kind, op |-> "reg"] @@ Op0
UnregOp(name) == [name |-> name, op |-> "unreg"] @@ Op0
HasOp(name) == [name |-> name, op |-> "has"] @@ Op0
Ci(o) == [ci |-> TRUE] @@ o
Ind(o, s) == [ind |-> s] @@ o

VStr(s) == [k |-> "str", v |-> B(s), g |-> ""]
VLit(s) == [k |-> "lit", v |-> B(s), g |-> ""]
VRaw(s) == [k |-> "raw", v |-> B(s), g |-> ""]
VNil == [k |-> "nil", v |-> <<>>, g |-> ""]
VBad == [k |-> "bad", v |-> <<>>, g |-> ""]

Gets(S) == {GetOp(B(x)) : x \in S}
Sets(S, V) == {SetOp(B(x), v) : x \in S, v \in V}
Dels(S) == {DelOp(B(x)) : x \in S}

(* a path with every word of W in place of each hole, joined by dots *)
RECURSIVE Words(_, _)
Words(W, n) == IF n = 1 THEN W ELSE LET Q == Words(W, n - 1) IN W \cup {x \o <<DOT>> \o y : x \in W, y \in Q}

----------------------------------------------------------------------------
Values == {VStr(""), VStr("x"), VStr(" y "), VStr("<b>&\"'"), VStr("&lt;"), VLit("-7"), VLit("1.5"), VLit("true")}
FewValues == {VStr("x"), VStr("a<b"), VLit("3")}

EditKids == Bset({"<a/>", "<a>1</a>", "<b x=\"1\"/>", "<a><b>2</b></a>", "t", "<!--c-->"})
AttrKids == Bset({"<a/>", "<a x=\"1\">t</a>", "<a y='2' x='&lt;'/>", "<b Y=\"3\" x=\"4\"></b>", "<a  x = \"1\" ><b x=\"5\"/></a>"})
NavKids == Bset({"<a>1</a>", "<b>2</b>", "<a><b>3</b></a>", "<a k=\"4\"><b/><b>5</b></a>", "<!--<a>-->", "t"})
WildKids == Bset({"<a>1</a>", "<b>2</b>", "<a><b>3</b><b>4</b></a>", "<b><a><b>5</b></a></b>", "<c k=\"6\"/>", "<c k=\"\"/>"})
FiltKids == Bset({"<i k=\"1\"/>", "<i k=\"10\"><n>1</n></i>", "<i><n>2</n></i>", "<i k=\"a\"><n>abc</n></i>", "<i k=\"2.0\"><n>10</n><n>3</n></i>"})
FieldKids == Bset({"<i/>", "<i k=\"1\">t</i>", "<i><n>1</n></i>", "<i k=\"2\"><n>2</n><n>3</n>u</i>", "<i><p:n>4</p:n></i>"})
PatKids == Bset({"<i k=\"\"/>", "<i k=\"a\"/>", "<i k=\"ab\"/>", "<i k=\"aab\"/>", "<i k=\"a*b\"/>", "<i k=\"abab\"/>", "<i k=\"b\\\"/>"})
ModKids == Bset({"<i k=\" 2\">2</i>", "<i k=\"10\">10</i>", "<i k=\" b\">b</i>", "<i><j>1</j></i>", "<i> x </i>", "<i>-1</i>", "<i>-20</i>", "<i>1e1</i>"})
NsKids == Bset({"<a>1</a>", "<p:a>2</p:a>", "<q:a k=\"3\"/>", "<p:b><q:a>4</q:a></p:b>", "<p:a p:k=\"5\" k=\"6\"/>"})
CaseKids == Bset({"<a>1</a>", "<A K=\"7\">2</A>", "<a K=\"3\" k=\"4\"/>", "<B><a>5</a></B>", "<P:a>6</P:a>"})
EntKids == Bset({"<a>&lt;</a>", "<a k=\"&amp;lt;\">&amp;amp;</a>", "<a>&#60;&#39;&#34;&#38;&#62;&e;</a>", "<a k='&quot;'>\"'</a>", "<a>&lt<![CDATA[&lt;]]>&gt;</a>"})

Modify(S, M) == {x \o B("|@") \o m : x \in S, m \in M}
ModWords == Bset({"reverse", "sort", "first", "last", "flatten", "ugly", "pretty"})

PatAtoms == Bset({"a", "b", "*", "?"})
PatWords == Runs(PatAtoms, 3) \ {<<>>}

EditWords == Bset({"r", "a", "b", "0", "1"})
NavWords == Bset({"r", "a", "b", "0", "1", "#", "%", "@k"})
WildWords == Bset({"r", "a", "b", "*", "**"})

(* well-formed and ill-formed texts, token by token *)
ValidToks == Bset({"<a>", "</a>", "<b x='1'>", "</b>", "<a/>", "t", "<!--", "-->"})
ValidToks2 == Bset({"<", ">", "a", "/", "=", "'", " ", "!", "-"})

RawFrags == Bset({"", "t", "<z/>", "<z>1</z>", "<z", "</z>", "<z></y>", "</r><r>", "<!--c-->", "<![CDATA[<![]]>", "<!DOCTYPE x>", "<!ENTITY e 'x'>",
                  "<![CDATA[<]]>", "<z a=\"1\">&lt;</z>", "<z a=1/>", "<", "&", "<z/><y/>", "a>b", "</a><a>"})

EditPaths == {"r", "r.a", "r.a.0", "r.a.1", "r.a.b", "r.b", "r.c.d", "r.a.-1", "q", "r.b.0.c", "r.c.-1", "q.-1", "r.a.b.-1", "r.1", "r.a.9"}
AttrPaths == {"r.@x", "r.a.@x", "r.a.1.@x", "r.a.@y", "r.b.@z", "r.a.b.@x", "r.c.@x", "q.@x", "r.a.@1", "r.a.@", "@x"}
DelPaths == {"r", "r.a", "r.a.0", "r.a.1", "r.a.b", "r.b", "r.c", "r.a.@x", "r.b.@x", "r.@x", "", "@x", "r.a.-1", "q", "r.a.2"}

(* sizes on both sides of the limits *)
Near(n, deep) == IF deep THEN (n - 3)..(n + 3) ELSE (n - 1)..(n + 1)
Nested(n) == RepeatBytes(B("<a>"), n) \o B("x") \o RepeatBytes(B("</a>"), n)
NestedIn(n) == RepeatBytes(B("<a>"), n) \o B("<z/>") \o RepeatBytes(B("</a>"), n)
Attributed(n) == B("<a") \o Concat([i \in 1..n |-> B(" k") \o NatToBytes(i) \o B("=\"") \o NatToBytes(i % 10) \o B("\"")]) \o B("><a>y</a></a>")
Listed(n) == B("<a>") \o RepeatBytes(B("<i/>"), n - 1) \o B("<i k=\"9\">9</i></a>")
Long(n) == RepeatBytes(B("n"), n)
Prefixed(n) == B("<a><") \o Long(n) \o B(":b k=\"1\">2</") \o Long(n) \o B(":b></a>")
Fielded(n) == B("<a><i ") \o Long(n - 1) \o B("=\"1\"><") \o Long(n) \o B(">2</") \o Long(n) \o B("></i></a>")
StepsOf(n, w) == RepeatBytes(B("a."), n - 1) \o B(w)
LimitOps(deep) ==
  {ValidOp, MapOp(B("a")), ConvOp(B("a.i.#"))}
  \cup {GetOp(StepsOf(n, w)) : n \in Near(MaxSegments, deep), w \in {"a", "@k1", "#", "%", "0"}}
  \cup {SetOp(StepsOf(n, w), VStr("v")) : n \in Near(MaxSegments, deep), w \in {"a", "@k1", "z", "-1"}}
  \cup {RawOp(StepsOf(n, "a"), f) : n \in {2, 98, 99, 100}, f \in Bset({"<z/>", "<z><y/></z>", "<z><y><x/></y></z>"})}
  \cup {DelOp(StepsOf(n, w)) : n \in Near(MaxSegments, deep), w \in {"a", "@k1"}}
  \cup {RawOp(B("a"), NestedIn(n)) : n \in Near(MaxDepth - 2, deep)}
  \cup {GetOp(w \o Concat([i \in 1..n |-> B("|@reverse")])) : n \in Near(MaxModChain, deep), w \in Bset({"a", "a.*", "a.nosuch"})}
  \cup {GetOp(B("a.i.#(@k==") \o RepeatBytes(B("9"), n - 4) \o B(")") \o e) : n \in Near(MaxFilterLen, deep), e \in Bset({"", "#"})}
  \cup {GetOp(B("a.i.#(@k!=") \o RepeatBytes(B("8"), n - 4) \o B(")") \o e) : n \in Near(MaxFilterLen, deep), e \in Bset({"", "#"})}
  \cup {GetOp(B("a.i.#.") \o Long(n)) : n \in Near(MaxFieldName, deep)} \cup {GetOp(B("a.i.#.@") \o Long(n)) : n \in Near(MaxFieldName, deep)}
  \cup {GetOp(B("a.") \o Long(n) \o w) : n \in Near(MaxNsPrefix, deep), w \in Bset({":b", ":b.@k", ":b.#", ":c"})}
  \cup Gets({"a.b", "a.b.#", "a.b.@k", "a.*", "a.i.#", "a.i.#(@k)", "a.i.#(@k)#", "a.i.#.@k", "a.i.#.%", "a.#.i", "**.i", "**.a", "**.x", "a.*|@last", "a.i.*", "*.i", "a.@k1",
                       "a.#(@k1)", "a.a", "a.#.@k99", "**.z", "**.@k1"})
  \cup {GetOp(B("a.i.") \o NatToBytes(n)) : n \in Near(MaxResults, deep)}
  \cup {SetOp(B("a.i.") \o NatToBytes(n), VStr("v")) : n \in Near(MaxResults, deep)} \cup {DelOp(B("a.i.") \o NatToBytes(n)) : n \in Near(MaxResults, deep)}
  \cup {GetOp(B("a.@k") \o NatToBytes(n)) : n \in Near(MaxAttrs, deep)} \cup {SetOp(B("a.@k") \o NatToBytes(n), VStr("v")) : n \in Near(MaxAttrs, deep)}
  \cup {DelOp(B("a.@k") \o NatToBytes(n)) : n \in Near(MaxAttrs, deep)}
  \cup Sets({"a.b", "a.@new", "a.a.@new", "a.-1", "a.i.-1", "z"}, {VStr("v")}) \cup Dels({"a", "a.b", "a.@k1"})
  \cup {ManyOp(<<B("a.@k1"), B("a.@new")>>, <<VStr("1"), VStr("2")>>), DelManyOp(<<B("a.@k1"), B("a.b")>>)}
LimitDocs(deep) ==
  {Nested(n) : n \in Near(MaxDepth, deep)} \cup {NestedIn(n) : n \in Near(MaxDepth, deep)} \cup {Attributed(n) : n \in Near(MaxAttrs, deep)}
  \cup {Listed(n) : n \in Near(MaxResults, deep)} \cup {Prefixed(n) : n \in Near(MaxNsPrefix, deep)} \cup {Fielded(n) : n \in Near(MaxFieldName, deep)}
  \cup Bset({"", "<a><i>1</i><i k='9'>2</i></a>"})

----------------------------------------------------------------------------
(* texts that are no documents, and paths that are none *)
Soup == Bset({"<", ">", "/", "a", "=", "\"", "!", "-", "[", "?", " ", "&"})
Sample == B("<a b=\"1\"><!--c--><d x='2'/><d>y&amp;</d></a>")
FreeDocs(pid) == IF pid = "P28" THEN {Sample, B("<a>1<b k=\"2\" j=\"3\" m=\"4\"/></a>")} ELSE {}
Damaged(d) == {Take(d, i) : i \in 0..Len(d)} \cup {SubSeq(d, i, Len(d)) : i \in 1..Len(d)}
              \cup {Take(d, i - 1) \o x \o SubSeq(d, i + 1, Len(d)) : i \in 1..Len(d), x \in Bset({"", "<", ">", "/", "\"", "&", "-", " "})}
PathSoup == Bset({"a", "b", ".", "@", "%", "#", "(", ")", "*", "|", "\\", "0", "-1", "=", ":", "'"})
AsFree(o) == [free |-> TRUE] @@ o
FreeOps(pid, deep) ==
  IF pid # "P28" THEN {}
  ELSE LET P == Runs(PathSoup, 3) \cup {B("a.d.") \o x : x \in Runs(PathSoup, 3)} \cup (IF deep THEN {B("a.#(") \o x : x \in Runs(PathSoup, 3)} ELSE {})
       IN {AsFree(GetOp(p)) : p \in P} \cup {AsFree(SetOp(p, VStr("v"))) : p \in Runs(PathSoup, IF deep THEN 3 ELSE 2)}
          \cup {AsFree(DelOp(p)) : p \in Runs(PathSoup, IF deep THEN 3 ELSE 2)}
          \cup {AsFree(FluOp(B("a"), p)) : p \in Runs(PathSoup, 2)} \cup {AsFree(Ci(GetOp(p))) : p \in Runs(PathSoup, 2)}

(* modifiers registered from the start: results that are numbers and truth values *)
Registered(pid) == IF pid = "P20" THEN (B("m1") :> "num") @@ (B("m2") :> "yes") @@ (B("m3") :> "no") ELSE NoReg

Docs(pid, deep) ==
  LET k == IF deep THEN 3 ELSE 2
  IN CASE pid \in {"P01", "P03", "P04", "P05", "P07", "P08", "P09", "P10", "P29"} ->
            In(BR, Runs(EditKids, k)) \cup {<<>>, B("<r/>"), B("<r/><r><a/></r>"), B("<q>1</q><r>2</r>")}
            \cup (IF pid = "P07" THEN Bset({"<r>", "<r></q>", "t", " ", "<r/", "</r>", "<r><a></r></a>", "<r/>x"}) ELSE {})
       [] pid = "P06" -> In(BR, Runs(EditKids \cup AttrKids, 2)) \cup Bset({"<r/>", "<r/><r><a/></r>", "<r>", "", " <r/> "})
       [] pid = "P02" -> In(BR, Runs(AttrKids, k)) \cup {<<>>, B("<r/>"), B("<r x='0' >t</r>")}
       [] pid = "P11" -> In(BR, Runs(NavKids, k)) \cup {x \o y : x \in In(BR, Runs(NavKids, 1)), y \in In(BR, Runs(NavKids, 1))}
                          \cup {B("<r/>") \o x : x \in In(BR, Runs(NavKids, 1))} \cup {x \o B("<r/>") : x \in In(BR, Runs(NavKids, 1))}
       [] pid = "P12" -> In(BR, Runs(WildKids, k)) \cup Runs(WildKids, 2)
       [] pid = "P13" -> (IF deep THEN Runs(FiltKids, 3) ELSE Runs(FiltKids, 2)) \cup In(BR, Runs(FiltKids, 2))
       [] pid = "P14" -> (IF deep THEN Runs(FieldKids, 3) ELSE Runs(FieldKids, 2)) \cup In(BR, Runs(FieldKids, 2))
       [] pid = "P15" -> {Concat(SeqOf(PatKids))}
       [] pid = "P16" -> In(BR, Runs(ModKids, k))
       [] pid = "P17" -> In(BR, Runs(Bset({"<a.b>1</a.b>", "<a><b>2</b></a>", "<x-1 k.1=\"3\"/>"}), 2))
       [] pid = "P18" -> In(BR, Runs(NsKids, k)) \cup InTag("<p:r>", "p:r", Runs(NsKids, 1))
       [] pid = "P19" -> In(BR, Runs(CaseKids, k)) \cup InTag("<R K='1'>", "R", Runs(CaseKids, 1))
       [] pid = "P20" -> In(BR, Runs(Bset({"<a>1</a>", "<a>-2.50</a>", "<a k=\"true\">yes</a>", "<a>9223372036854775808</a>", "<b>x</b>", "<a> 1e2 </a>"}), 2))
       [] pid = "P21" -> In(BR, Runs(NavKids, k))
       [] pid = "P22" -> In(BR, Runs(EditKids, 2)) \cup {<<>>}
       [] pid = "P23" -> Runs(ValidToks, IF deep THEN 4 ELSE 3) \cup Runs(ValidToks2, IF deep THEN 5 ELSE 4)
       [] pid = "P24" -> LimitDocs(deep)
       [] pid = "P25" -> {B("<r><i>b</i><i>a</i></r>")}
       [] pid = "P27" -> In(BR, Runs(EntKids, k))
       [] pid = "P28" -> Runs(Soup, 3) \cup Damaged(Sample) \cup FreeDocs(pid)
                         \cup (IF deep THEN {B("<a>") \o x : x \in Runs(Soup, 3)} \cup {B("<a b='c'>t</") \o x : x \in Runs(Soup, 2)} ELSE {})

Ops(pid, deep) ==
  CASE pid = "P01" -> Sets(EditPaths, Values)
    [] pid = "P02" -> Sets(AttrPaths, Values)
    [] pid = "P03" -> Sets(EditPaths \cup {"r.@x", "r.b.@x", "r.a.@y"}, {VStr("x"), VRaw("<z/>")}) \cup Dels(DelPaths)
    [] pid = "P04" -> Sets({"r.a", "r.c", "r.c.d", "r.a.c", "r.a.1.c", "r.a.2", "q", "q.a.b", "r.b.c.d", "r.a.b.c.@k", "r.0.c", "r.1.c", "q.0", "r.a.0.0", "p:r.c"},
                           {VStr("v"), VStr(""), VRaw("<z/>")})
    [] pid = "P05" -> Sets({"r.a.-1", "r.b.-1", "r.c.-1", "r.-1", "q.-1", "r.a.b.-1", "r.a.1.b.-1", "q.a.-1", "r.c.d.-1", "-1", "r.a.-1.b", "r.a.-2"},
                           {VStr("v"), VStr("<"), VRaw("<z/>")})
    [] pid = "P06" -> Dels(DelPaths \cup {"r.a.3", "r.a.b.0", "r.a.1.@x", "r.a.@y", "r.a.0.b"})
    [] pid = "P07" -> Sets(EditPaths \cup {"", ".", "@x", "r.@1", "r.#", "r.%", "0", "r.-2", "r.a.-1.b", "r.a.0.0"},
                           {VStr("v"), VBad, VNil, VRaw("<z>"), VRaw("</r>")}) \cup Dels(DelPaths)
                      \cup {RawOp(B(p), f) : p \in {"r.a", "", "r.c"}, f \in Bset({"<z/>", "<z>", "</a>", "<!DOCTYPE x>"})}
                      \cup {ManyOp(<<B("r.a"), B(p)>>, <<VStr("1"), v>>) : p \in {"r.b", "", "r.c.-2"}, v \in {VStr("2"), VBad}}
                      \cup {ManyOp(<<B("r.a")>>, <<>>)}
    [] pid = "P08" -> Sets(EditPaths \cup AttrPaths, {VStr("</r>"), VStr("\"><x y='"), VRaw("</r>"), VRaw("<a>"), VRaw("\"'<z/>"), VStr("]]>--")})
                      \cup Dels(DelPaths)
    [] pid = "P09" -> {ManyOp(<<B(p), B(q)>>, <<VStr("1"), v>>) : p \in {"r.a", "r.c", "r.a.-1", "r.b.@x"}, q \in {"r.a", "r.c.d", "r.a.1", "", "r.a.-2"},
                                                                  v \in {VStr("2"), VNil, VBad}}
                      \cup {DelManyOp(<<B(p), B(q)>>) : p, q \in {"r.a", "r.b", "r.a.0", "r.a.1", "r.a.b", "r", "", "r.b.@x", "@x"}}
                      \cup {DelManyOp(<<>>), ManyOp(<<>>, <<>>), ManyOp(<<B("r")>>, <<>>), GetManyOp(<<B("r.a"), B("r.c"), B("")>>), GetManyOp(<<>>)}
    [] pid = "P10" -> {RawOp(B(p), f) : p \in {"r", "r.a", "r.a.1", "r.c", "r.a.-1", "r.b.@x", "q"}, f \in RawFrags}
    [] pid = "P11" -> {GetOp(p) : p \in Words(NavWords, IF deep THEN 4 ELSE 3)}
    [] pid = "P12" -> {GetOp(p) : p \in {q \in Words(WildWords, IF deep THEN 4 ELSE 3) : TRUE}} \cup Gets({"r.*.@k", "**.@k", "**.c.@k", "*.*.%", "**.b.%", "r.**.%"})
    [] pid = "P13" -> Gets({pre \o "i.#(" \o f \o c \o v \o ")" \o e : pre \in {"", "r."}, f \in {"n", "@k"}, c \in {"==", "!=", "<", ">", "<=", ">=", "%", "!%"},
                                     v \in {"1", "2", "abc", "a*"}, e \in {"", "#"}})
                      \cup Gets({pre \o "i.#(" \o f \o ")" \o e : pre \in {"", "r."}, f \in {"n", "@k", "zz"}, e \in {"", "#", ".n", "#.n", ".@k", "#.@k", "#.#.n", ".%"}})
                      \cup Gets({pre \o f \o e : pre \in {"**.", "**.i.", "r.**."}, f \in {"#(n==1)", "#(@k)", "#(@k!=1)"}, e \in {"", "#", "#.n", ".@k"}})
    [] pid = "P14" -> Gets({pre \o "i" \o f \o ".#." \o n : pre \in {"", "r."}, f \in {"", ".#(n)#", ".#(@k)#"}, n \in {"n", "@k", "%", "p:n", "zz"}})
                      \cup {Ci(x) : x \in Gets({"I.#.N", "i.#.@K", "r.i.#.n", "r.I.#.%"})}
                      \cup Gets({"**.i.#.n", "**.i.#.@k", "**.n.#.%"})
    [] pid = "P15" -> {GetOp(B("i.#(@k") \o c \o B("'") \o p \o B("')#")) : c \in Bset({"%", "!%"}),
                          p \in (IF deep THEN Runs(PatAtoms \cup {B("\\\\")}, 4) ELSE Runs(PatAtoms \cup {B("\\\\")}, 3)) \ {<<>>}}
    [] pid = "P16" -> {GetOp(p) : p \in LET b == Bset({"r.i", "r.*", "r.i.#.j", "r.i.#(j)#", "r.i.#", "r.**.i", "r.i.#.@k"})
                                        IN b \cup Modify(b, ModWords) \cup (IF deep THEN Modify(Modify(Modify(b, ModWords), ModWords), ModWords)
                                                                            ELSE Modify(Modify(b, ModWords), ModWords))}
    [] pid = "P17" -> {GetOp(p) : p \in (Runs(Bset({"r", "a", "-", ".", "\\", "0"}), IF deep THEN 5 ELSE 4) \cup Runs(Bset({"r", "a", ".", "\\", "0"}), IF deep THEN 6 ELSE 5)) \ {<<>>}}
    [] pid = "P18" -> Gets({"r", "p:r", "q:r", "r.a", "r.p:a", "r.q:a", "r.x:a", "r.b.a", "r.p:b.q:a", "r.b.p:a", "**.a", "**.p:a", "**.q:a", "r.a.#", "r.p:a.#", "r.a.1",
                            "r.p:a.0", "r.a.@k", "r.a.@p:k", "r.p:a.@p:k", "r.#.a", "r.#.p:a", "r.*.a", "p:r.a", "r.a.#(@k)#", "r.a.#(@p:k)#"})
                      \cup Sets({"r.a", "r.p:a", "r.q:a", "r.x:a", "r.p:b.a", "r.a.@k", "r.p:a.@p:k", "r.p:a.-1", "r.a.-1", "p:r.z"}, {VStr("v")})
                      \cup Dels({"r.a", "r.p:a", "r.q:a", "r.x:a", "r.b.q:a", "r.a.@k", "r.p:a.@p:k", "r.a.1"})
    [] pid = "P19" -> {Ci(x) : x \in Gets({"R", "r.A", "r.a.1", "R.A.#", "r.b.A", "R.A.@K", "r.a.@k", "**.A", "r.*.a", "r.p:A", "r.A.#(@k)#", "r.A.#(@k).@K", "r.a.#(@K).@k", "r.a.#(@K)#.@k", "r.a.#(@k)#.#.A", "r.#.A", "R.@k"})
                                     \cup Sets({"R.A", "r.a.@K", "R.Zz", "r.A.-1", "r.P:A", "r.a.1", "R.@k"}, {VStr("v")})
                                     \cup Dels({"R.A", "r.A.@k", "r.P:A", "r.a.1", "R.@k"})}
                      \cup Gets({"R", "r.A", "r.a", "r.a.@k", "r.a.@K", "r.b"})
                      \cup {Ci(MapOp(B("r"))), MapOp(B("R")), Ci(FluOp(B("R"), B("A"))), FluOp(B("r"), B("A"))}
    [] pid = "P20" -> {ConvOp(B(p)) : p \in {"r", "r.a", "r.a.1", "r.b", "r.*", "r.a.#", "r.zz", "r.a.@k", "r.a.%", "r.#.a", "r.a|@first", "**.a", "r.a.#(@k)#", "",
                                              "r.a|@m1", "r.a.1|@m1", "r.*|@m1|@last", "r.a|@m1|@first", "r.b|@m2", "r.a.@k|@m3", "r.*|@m2", "r.*|@m3|@first", "r.zz|@m2"}}
                      \cup Sets({"r.a", "r.b"}, {VLit("7"), VLit("-0.5"), VLit("false"), VStr("9223372036854775807")})
    [] pid = "P21" -> {FluOp(B(p), q) : p \in {"r", "r.a", "r.a.1", "r.*", "r.zz", "r.a.@k", "r.a.#"}, q \in {x \in Words(NavWords, 2) : x[1] \in {97, 98, AT}}}
                      \cup {MapOp(B(p)) : p \in {"r", "r.a", "r.b", "r.*", "r.zz", "r.a.1", "r.a.@k"}}
    [] pid = "P22" -> Gets({"r", "r.a", "r.*", "**.b", "r.a.#", "r.a.0.b", "r.a|@reverse", "r.#.a", "r.a.#(b)#", "r.b.@x", "r.a.%"})
                      \cup {Ci(x) : x \in Gets({"R.A", "**.B", "r.#.A", "R.b.@X"})}
                      \cup Sets({"r.a", "r.c.d", "r.a.-1", "r.b.@x", "", "q"}, {VStr("<v>"), VLit("2"), VRaw("<z/>"), VNil, VBad})
                      \cup Dels({"r.a", "r.a.1", "r.b.@x", "r", ""})
                      \cup {Ind(x, B("  ")) : x \in Sets({"r.c.d", "r.a.-1", "q"}, {VStr("v")})}
                      \cup {ManyOp(<<B("r.a"), B("r.c")>>, <<VStr("1"), VStr("2")>>), DelManyOp(<<B("r.a"), B("r.b")>>), ValidOp, FluOp(B("r"), B("a")), MapOp(B("r")),
                            GetManyOp(<<B("r.a"), B("r.b")>>)}
    [] pid = "P23" -> {ValidOp}
    [] pid = "P24" -> LimitOps(deep)
    [] pid = "P25" -> {RegOp(B(n), x) : n \in {"m1", "m2", "sort", "", " sort"}, x \in {"tag", "null", "wrap"}}
                      \cup {UnregOp(B(n)) : n \in {"m1", "m2", "sort", "zz", " sort"}} \cup {HasOp(B(n)) : n \in {"m1", "m2", "sort", "zz", " sort"}}
                      \cup Gets({"r.i|@m1", "r.i|@m2", "r.*|@m1|@m2", "r.*|@m2|@m1", "r.*|@sort|@m1", "r.*|@m1|@first", "r.i"})
    [] pid = "P27" -> Gets({"r.a", "r.a.@k", "r.*", "r.a.%", "r.#.a", "r.a.#.@k", "r.a.#(@k=='&lt;')#", "r.a.#(@k=='\"')", "**.a"})
                      \cup Sets({"r.a", "r.a.@k", "r.c"}, {VStr("&lt;"), VStr("<&>\"'"), VStr("&amp;lt;"), VStr("&#60;"), VStr("&"), VRaw("&amp;")})
                      \cup {MapOp(B("r")), ConvOp(B("r.*"))}
    [] pid = "P28" -> {ValidOp, MapOp(B("a")), ConvOp(B("a.*")), FluOp(B("a"), B("d")), GetManyOp(<<B("a"), B("**.d")>>), RawOp(B("a"), B("<z/>")),
                       ManyOp(<<B("a.e")>>, <<VStr("1")>>), DelManyOp(<<B("a")>>)}
                      \cup Gets({"a", "a.d.1", "a.*", "**.d", "a.d.#", "a.@b", "a.%", "a.d.#(@x==2)#", "a.#.d", "a|@ugly"})
                      \cup Sets({"a", "a.d", "a.@b", "a.d.-1", "a.b.d.-1", "e.f"}, {VStr("v")}) \cup Dels({"a", "a.d", "a.@b"})
    [] pid = "P29" -> {Ind(x, i) : x \in Sets(EditPaths \cup {"r.c.d.e", "q.a.b", "r.a.@k", "r.d.@k"}, {VStr("v")}), i \in {B("  "), <<9>>, B(" ")}}

(* long lists only need the operations about lists *)
Apply(pid, d, op) == ~(pid = "P24" /\ Len(d) > 2000 /\ "p" \in DOMAIN op /\ (Len(op.p) > 40 \/ At(op.p, 3, <<AT>>)))

(* the number of calls in a row *)
Editing == {"P01", "P02", "P03", "P04", "P05", "P07", "P08", "P10", "P22", "P27", "P29"}
Calls(pid, deep) == CASE pid = "P25" -> IF deep THEN 6 ELSE 5
                      [] pid = "P06" -> IF deep THEN 4 ELSE 3
                      [] pid \in {"P18", "P19"} -> IF deep THEN 3 ELSE 2
                      [] pid \in Editing -> 2
                      [] OTHER -> 1
Steps(pid, deep) == Calls(pid, deep) + 1
(* a second edit is explored on small documents only *)
Further(pid, d, deep, level) == level = 1 \/ pid \notin Editing \/ Len(d) <= (IF deep THEN 26 ELSE 18)
=============================================================================
