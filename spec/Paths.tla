------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Path expressions: a byte string is split into segments; a segment is an *)
(* element name, @attribute, index, wildcard, filter, text or count        *)
(* marker, or a field extraction (a count marker followed by a field).     *)
(***************************************************************************)
EXTENDS Valid

MaxSegments == 100
MaxFieldName == 256
MaxFilterLen == 256

----------------------------------------------------------------------------
(* Splitting on dots: backslash takes the next byte literally, dots inside a
   #( ... ) filter do not split.                                             *)
PartStep(st, c) ==
  IF st.esc THEN [st EXCEPT !.w = Append(st.w, c), !.esc = FALSE]
  ELSE IF c = BSL THEN [st EXCEPT !.esc = TRUE]
  ELSE LET nd == IF c = LPAR /\ (st.depth > 0 \/ st.w = <<HASH>>) THEN st.depth + 1
                 ELSE IF c = RPAR /\ st.depth > 0 THEN st.depth - 1 ELSE st.depth
       IN IF c = DOT /\ nd = 0 THEN [parts |-> Append(st.parts, st.w), w |-> <<>>, esc |-> FALSE, depth |-> 0]
          ELSE [st EXCEPT !.w = Append(st.w, c), !.depth = nd]

PathParts(p) == LET r == Fold(PartStep, [parts |-> <<>>, w |-> <<>>, esc |-> FALSE, depth |-> 0], p)
                IN Append(r.parts, r.w)

(* modifiers: "|"-separated, those starting with "@" count *)
RECURSIVE ModsFrom(_, _)
ModsFrom(ps, i) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET m == Trim(ps[i])
       IN (IF Len(m) > 0 /\ m[1] = AT THEN <<Tail(m)>> ELSE <<>>) \o ModsFrom(ps, i + 1)

----------------------------------------------------------------------------
(* Filter conditions *)
OpBytes == {EQ, BANG, LT, GT, PCT}
TwoCharOps == {<<EQ, EQ>>, <<LT, EQ>>, <<GT, EQ>>, <<BANG, EQ>>, <<BANG, PCT>>}
CtrlBytes == {0, 10, 13, 9}

RECURSIVE FindTwo(_, _)
FindTwo(s, i) == IF i >= Len(s) THEN 0
                 ELSE IF <<s[i], s[i + 1]>> \in TwoCharOps THEN i ELSE FindTwo(s, i + 1)

NoFilter == [ok |-> FALSE, path |-> <<>>, op |-> <<>>, val |-> <<>>]

StripQuotes(v) == IF Len(v) >= 2 /\ v[1] \in {DQ, SQ} /\ v[Len(v)] = v[1]
                  THEN SubSeq(v, 2, Len(v) - 1) ELSE v

ParseFilter(raw) ==
  LET s == Trim(raw)
      two == FindTwo(s, 1)
      one == FindAny(s, {LT, GT, PCT}, 1)
      pos == IF two # 0 THEN two ELSE one
      ol  == IF two # 0 THEN 2 ELSE 1
      pr  == SubSeq(s, 1, pos - 1)
      vr  == SubSeq(s, pos + ol, Len(s))
      path == Trim(pr)
      v0  == Trim(vr)
      val == StripQuotes(v0)
  IN IF Len(raw) > MaxFilterLen \/ ContainsByte(raw, 0) \/ s = <<>> THEN NoFilter
     ELSE IF ~ContainsAny(s, OpBytes) THEN [ok |-> TRUE, path |-> s, op |-> <<>>, val |-> <<>>]
     ELSE IF pos = 0 THEN NoFilter
     ELSE IF ContainsAny(pr, CtrlBytes) \/ path = <<>> \/ v0 = <<>> \/ ContainsAny(path, OpBytes)
             \/ ContainsAny(val, CtrlBytes)
          THEN NoFilter
     ELSE [ok |-> TRUE, path |-> path, op |-> SubSeq(s, pos, pos + ol - 1), val |-> val]

----------------------------------------------------------------------------
(* Segments: t is one of
     "el" element  "at" attribute  "ix" index  "wc" *  "rw" **
     "fi" filter   "tx" text (%)   "ct" count (#)  "fx" field extraction     *)
Seg(t, v, mods) == [t |-> t, v |-> v, i |-> 0, f |-> NoFilter, all |-> FALSE, mods |-> mods]

NumericPart(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i]) \/ (s[i] = MINUS /\ i = 1 /\ Len(s) > 1)
BigIndex == 2000000000
IndexOf(s) ==
  LET neg == s[1] = MINUS
      ds == IF neg THEN Tail(s) ELSE s
      v == IF Len(StripLeadingZeros(ds)) > 9 THEN BigIndex ELSE NatOf(ds)
  IN IF neg THEN -v ELSE v

FilterOpen == <<HASH, LPAR>>

(* one part to a segment: [skip], [bad] or [seg] *)
ParsePart(part) ==
  LET ps == Split(part, BAR)
      h == ps[1]
      mods == ModsFrom(ps, 2)
      n == Len(h)
      all == n >= 2 /\ h[n] = HASH /\ h[n - 1] = RPAR
      closed == all \/ (n >= 1 /\ h[n] = RPAR)
      ce == IF all THEN n - 2 ELSE n - 1         \* last byte of the condition
      f == ParseFilter(SubSeq(h, 3, ce))
  IN IF HasPrefix(h, FilterOpen)
     THEN IF ~closed \/ ce < 3 THEN [r |-> "skip"]
          ELSE IF ~f.ok THEN [r |-> "bad"]
          ELSE [r |-> "seg", seg |-> [Seg("fi", <<>>, mods) EXCEPT !.f = f, !.all = all]]
     ELSE [r |-> "seg", seg |->
        IF n > 0 /\ h[1] = AT THEN Seg("at", Tail(h), mods)
        ELSE IF h = <<PCT>> THEN Seg("tx", <<>>, mods)
        ELSE IF h = <<HASH>> THEN Seg("ct", <<>>, mods)
        ELSE IF h = <<STAR>> THEN Seg("wc", <<>>, mods)
        ELSE IF h = <<STAR, STAR>> THEN Seg("rw", <<>>, mods)
        ELSE IF NumericPart(h) THEN [Seg("ix", <<>>, mods) EXCEPT !.i = IndexOf(h)]
        ELSE Seg("el", h, mods)]

BadPath == [ok |-> FALSE, segs |-> <<>>]

RECURSIVE PartsToSegs(_, _)
PartsToSegs(parts, i) ==
  IF i > Len(parts) THEN [ok |-> TRUE, segs |-> <<>>]
  ELSE IF parts[i] = <<>> THEN PartsToSegs(parts, i + 1)
  ELSE LET r == ParsePart(parts[i])
           t == PartsToSegs(parts, i + 1)
       IN IF r.r = "bad" THEN BadPath
          ELSE IF r.r = "skip" \/ ~t.ok THEN t
          ELSE [ok |-> TRUE, segs |-> <<r.seg>> \o t.segs]

IsIdent(s) == /\ Len(s) > 0 /\ (IsAlpha(s[1]) \/ s[1] = USCORE)
              /\ \A i \in 2..Len(s) : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] \in {MINUS, USCORE, COLON}
FieldOf(seg) == IF seg.t = "tx" THEN <<PCT>> ELSE IF seg.t = "at" THEN <<AT>> \o seg.v ELSE seg.v
FieldOK(seg) ==
  CASE seg.t = "tx" -> TRUE
    [] seg.t \in {"at", "el"} -> IsIdent(seg.v) /\ Len(FieldOf(seg)) <= MaxFieldName
    [] OTHER -> FALSE

RECURSIVE FoldFields(_, _)
FoldFields(ss, i) ==
  IF i > Len(ss) THEN <<>>
  ELSE IF ss[i].t = "ct" /\ i < Len(ss) /\ FieldOK(ss[i + 1])
       THEN <<[Seg("fx", ss[i + 1].v, ss[i + 1].mods) EXCEPT
               !.i = CASE ss[i + 1].t = "tx" -> 1 [] ss[i + 1].t = "at" -> 2 [] OTHER -> 0]>>
            \o FoldFields(ss, i + 2)
  ELSE <<ss[i]>> \o FoldFields(ss, i + 1)

(* ok=FALSE or no segments: the path names nothing *)
ParsePath(p) ==
  LET parts == PathParts(p)
      r == PartsToSegs(parts, 1)
  IN IF p = <<>> \/ Len(parts) > MaxSegments THEN BadPath
     ELSE IF ~r.ok \/ r.segs = <<>> THEN BadPath
     ELSE [ok |-> TRUE, segs |-> FoldFields(r.segs, 1)]
=============================================================================
