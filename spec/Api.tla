-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The public operations as one transition function.  The state is         *)
(* [d, reg]: the document held by the caller and the custom modifiers      *)
(* registered in the process.  Expected(st, op) is the outcome of op in st *)
(* and After(st, op, out) the state that follows.                          *)
(***************************************************************************)
EXTENDS Edit

----------------------------------------------------------------------------
(* Result conversions *)
Int64Max == B("9223372036854775807")
Int64Min == B("9223372036854775808")
LeqDigits(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~Less(b, a))
Zero == <<48>>
One == <<49>>

(* decimal text of the 64-bit integer a string denotes, "0" otherwise *)
IntText(s) ==
  LET neg == s # <<>> /\ s[1] = MINUS
      ds == IF s # <<>> /\ s[1] \in {MINUS, PLUS} THEN Tail(s) ELSE s
      v == StripLeadingZeros(ds)
  IN IF ~AllDigits(ds) \/ v = <<>> THEN Zero
     ELSE IF neg THEN (IF LeqDigits(v, Int64Min) THEN <<MINUS>> \o v ELSE Zero)
     ELSE IF LeqDigits(v, Int64Max) THEN v ELSE Zero

(* canonical decimal text of a numeral, "0" otherwise; <<>> (the nearest float)
   when there are more digits than a float holds exactly                      *)
MaxExact == 15
DigitCount(s) == Len(SelectSeq(s, IsDigit))
(* a negative exponent of three digits: down among the denormal floats *)
TinyExponent(s) == \E i \in 1..(Len(s) - 4) : s[i] \in {101, 69} /\ s[i + 1] = MINUS /\ \A j \in (i + 2)..(i + 4) : IsDigit(s[j])
FloatText(s) ==
  LET x == ParseNum(s)
  IN IF ~x.ok THEN (IF SpecialNum(s) # <<>> THEN SpecialNum(s) ELSE Zero)
     ELSE IF DigitCount(s) > MaxExact \/ TinyExponent(s) THEN <<>>
     ELSE (IF x.neg THEN <<MINUS>> ELSE <<>>) \o (IF x.int = <<>> THEN Zero ELSE x.int)
          \o (IF x.frac = <<>> THEN <<>> ELSE <<DOT>> \o x.frac)

(* the integer part of a numeral *)
Truncated(s) ==
  LET x == ParseNum(s)
  IN IF ~x.ok \/ x.int = <<>> THEN Zero ELSE (IF x.neg THEN <<MINUS>> ELSE <<>>) \o x.int

TrueTexts == {B("true"), B("1"), B("yes"), B("True"), B("YES"), B("t"), B("T")}

Scalar(r) == r.t \in {"elem", "str", "attr", "num"}
Items(r) == IF r.t = "null" THEN <<>> ELSE IF r.t = "arr" THEN r.a ELSE <<r>>

ValueKind(r) == CASE r.t = "null" -> "nil" [] r.t = "num" -> "float" [] r.t = "arr" -> "results"
                  [] r.t \in {"true", "false"} -> "bool"
                  [] OTHER -> "string"

Conv(r) == [k |-> "conv",
            s |-> StrOf(r),
            i |-> CASE r.t = "num" -> Truncated(r.s) [] r.t = "true" -> One [] Scalar(r) -> IntText(r.s) [] OTHER -> Zero,
            f |-> CASE r.t = "true" -> One [] Scalar(r) -> FloatText(r.s) [] OTHER -> Zero,
            b |-> CASE r.t = "true" -> TRUE [] r.t = "num" -> FloatText(r.s) # Zero [] Scalar(r) -> r.s \in TrueTexts
                    [] OTHER -> FALSE,
            ex |-> r.t # "null",
            ia |-> r.t = "arr",
            vk |-> ValueKind(r),
            items |-> Items(r)]

----------------------------------------------------------------------------
(* Queries on results *)
RECURSIVE Fluent(_, _, _, _)
Fluent(r, p, o, reg) ==
  CASE r.t = "arr" -> IF r.a = <<>> THEN Null ELSE Fluent(r.a[1], p, o, reg)
    [] r.t = "elem" -> Get(r.r, p, o, reg)
    [] OTHER -> Null

Key(name, o) == IF o.ci THEN Lower(name) ELSE name
RECURSIVE MapOf(_, _)
MapOf(r, o) ==
  IF r.t = "arr" THEN (IF r.a = <<>> THEN <<>> ELSE MapOf(r.a[1], o))
  ELSE IF r.t # "elem" THEN <<>>
  ELSE LET ns == Parse(r.r)
           es == Cap(Elems(ns))
           tx == Trim(DirectText(r.r, ns))
           keys == SortNames({Key(es[i].name, o) : i \in 1..Len(es)})
           Of(key) == SelectSeq(es, LAMBDA e : Key(e.name, o) = key)
           Vals(key) == LET g == Of(key) IN [i \in 1..Len(g) |-> ElemR(r.r, g[i])]
       IN (IF tx = <<>> THEN <<>> ELSE <<[key |-> <<PCT>>, r |-> R("str", Unescape(tx), tx)]>>)
          \o [i \in 1..Len(keys) |-> [key |-> keys[i], r |-> Unwrap(Vals(keys[i]))]]

----------------------------------------------------------------------------
Opt(op) == [ci |-> op.ci]
EOpt(op) == [ci |-> op.ci, indent |-> op.ind]

Res(r) == [k |-> "res", r |-> r]
Doc(x) == [k |-> "doc", err |-> x.err, d |-> x.d, mut |-> FALSE]
St(b) == [k |-> "st", ok |-> b]

Expected(st, op) ==
  CASE op.op \in {"load", "flood", "stress"} -> St(TRUE)
    [] op.op = "get"     -> Res(Get(st.d, op.p, Opt(op), st.reg))
    [] op.op = "getmany" -> [k |-> "many", rs |-> [i \in 1..Len(op.ps) |->
                                 Get(st.d, op.ps[i], CS, st.reg)]]
    [] op.op = "conv"    -> Conv(Get(st.d, op.p, Opt(op), st.reg))
    [] op.op = "flu"     -> Res(Fluent(Get(st.d, op.p, Opt(op), st.reg), op.p2, Opt(op), st.reg))
    [] op.op = "map"     -> [k |-> "map", m |-> MapOf(Get(st.d, op.p, Opt(op), st.reg), Opt(op))]
    [] op.op = "set"     -> Doc(SetDoc(st.d, op.p, op.v, EOpt(op)))
    [] op.op = "setraw"  -> Doc(SetRawDoc(st.d, op.p, op.raw))
    [] op.op = "setmany" -> Doc(SetManyDoc(st.d, op.ps, op.vs))
    [] op.op = "del"     -> Doc(DeleteDoc(st.d, op.p, EOpt(op)))
    [] op.op = "delmany" -> Doc(DeleteManyDoc(st.d, op.ps))
    [] op.op = "valid"   -> LET v == Validate(st.d) IN [k |-> "valid", ok |-> v.ok, line |-> v.line, col |-> v.col]
    [] op.op = "reg"     -> St(op.name # <<>> /\ op.name \notin Builtins /\ op.name \notin DOMAIN st.reg)
    [] op.op = "unreg"   -> St(op.name \notin Builtins)
    [] op.op = "has"     -> St(op.name \in Builtins \/ op.name \in DOMAIN st.reg)

Edits == {"set", "setraw", "setmany", "del", "delmany"}

Follow(st, op, out) ==
  CASE op.op = "load" -> [st EXCEPT !.d = op.d]
    [] op.op \in Edits -> [st EXCEPT !.d = out.d]
    [] op.op = "reg" -> IF out.ok THEN [st EXCEPT !.reg = (op.name :> op.kind) @@ st.reg] ELSE st
    [] op.op = "unreg" -> [st EXCEPT !.reg = [x \in DOMAIN st.reg \ {op.name} |-> st.reg[x]]]
    [] OTHER -> st
=============================================================================
