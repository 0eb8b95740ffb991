------------------------------- MODULE Valid -------------------------------
(***************************************************************************)
(* The language of well-formed documents the library accepts (multi-root   *)
(* fragments included) and, for every other byte string, the line and      *)
(* column at which it is rejected.                                         *)
(***************************************************************************)
EXTENDS Xml

MaxDepth == 100
MaxAttrs == 100

IsNameByte(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {DOT, MINUS, USCORE, COLON}
IsNameStart(c) == IsAlpha(c) \/ c \in {USCORE, COLON}
ValidName(s) == Len(s) > 0 /\ IsNameStart(s[1]) /\ \A i \in 2..Len(s) : IsNameByte(s[i])

NameRun(d, i) == IF i > Len(d) THEN i
                 ELSE LET j == FindFirst(d, LAMBDA x : ~IsNameByte(x), i) IN IF j = 0 THEN Len(d) + 1 ELSE j

OK(p) == [ok |-> TRUE, p |-> p]
Err(p) == [ok |-> FALSE, p |-> p]          \* p: position the error is reported at

(* position after the next c, or an error at the end of the document *)
SkipTo(d, c, i) == LET j == FindByte(d, c, i) IN IF j = 0 THEN Err(Len(d) + 1) ELSE OK(j + 1)

DashDash == B("--")

(* comment body from i: "--" must be followed by ">" *)
Later(i, n) == IF i > n THEN i ELSE n      \* an unterminated section is reported near the end
VComment(d, i) ==
  LET j == FindSeq(d, DashDash, i)
  IN IF j = 0 \/ j > Len(d) - 2 THEN Err(Later(i, Len(d) - 1))
     ELSE IF d[j + 2] = GT THEN OK(j + 3) ELSE Err(j + 2)

VCData(d, i) ==
  LET j == FindSeq(d, CloseCData, i)
  IN IF j = 0 THEN Err(Later(i, Len(d) - 1)) ELSE OK(j + 3)

RECURSIVE VDoctype(_, _, _)
VDoctype(d, i, depth) ==
  IF i > Len(d) THEN Err(i)
  ELSE IF d[i] = LBR THEN VDoctype(d, i + 1, depth + 1)
  ELSE IF d[i] = RBR THEN VDoctype(d, i + 1, depth - 1)
  ELSE IF d[i] = GT /\ depth = 0 THEN OK(i + 1)
  ELSE VDoctype(d, i + 1, depth)

DoctypeU == B("DOCTYPE")  DoctypeL == B("doctype")  CDataKw == B("[CDATA[")

(* attribute list: OK at '/' or '>' *)
RECURSIVE VAttrs(_, _, _)
VAttrs(d, i0, n) ==
  LET i == SkipWs(d, i0)
  IN IF i > Len(d) THEN Err(i)
     ELSE IF d[i] \in {GT, SLASH} THEN OK(i)
     ELSE IF n >= MaxAttrs THEN Err(i)
     ELSE LET ne == NameRun(d, i)
              eq == SkipWs(d, ne)
              q  == SkipWs(d, eq + 1)
          IN IF ~ValidName(SubSeq(d, i, ne - 1)) THEN Err(i)
             ELSE IF eq > Len(d) \/ d[eq] # EQ THEN Err(eq)
             ELSE IF q > Len(d) \/ d[q] \notin {DQ, SQ} THEN Err(q)
             ELSE LET v == SkipTo(d, d[q], q + 1)
                  IN IF ~v.ok THEN v ELSE VAttrs(d, v.p, n + 1)

(* Validation keeps the position p, the open tags <<name, position>>, whether a
   root was seen, and the verdict: "" while reading, then "ok" or "err" at p.  *)
VGo(p, st, found) == [p |-> p, st |-> st, found |-> found, v |-> ""]
VStop(v, p) == [p |-> p, st |-> <<>>, found |-> FALSE, v |-> v]
VNext(r, st, found) == IF r.ok THEN VGo(r.p, st, found) ELSE VStop("err", r.p)

VToken(d, s) ==
  LET i == SkipWs(d, s.p)
      st == s.st
  IN IF s.v # "" THEN s
     ELSE IF i > Len(d)
     THEN IF Len(st) > 0 THEN VStop("err", st[Len(st)][2])
          ELSE IF ~s.found THEN VStop("err", 1) ELSE VStop("ok", i)
     ELSE IF d[i] # LT
          THEN IF st = <<>> THEN VStop("err", i) ELSE VGo(OrEnd(d, FindByte(d, LT, i)), st, s.found)
     ELSE IF i = Len(d) THEN VStop("err", i)
     ELSE IF d[i + 1] = QM THEN VNext(SkipTo(d, GT, i + 2), st, s.found)
     ELSE IF d[i + 1] = BANG
          THEN VNext(IF At(d, i + 2, DoctypeU) \/ At(d, i + 2, DoctypeL) THEN VDoctype(d, i + 2, 0)
                     ELSE IF At(d, i + 2, DashDash) THEN VComment(d, i + 4)
                     ELSE IF At(d, i + 2, CDataKw) THEN VCData(d, i + 9)
                     ELSE SkipTo(d, GT, i + 2), st, s.found)
     ELSE IF d[i + 1] = SLASH
          THEN LET ne == NameRun(d, i + 2)
                   nm == SubSeq(d, i + 2, ne - 1)
                   g  == SkipWs(d, ne)
               IN IF nm = <<>> THEN VStop("err", i + 2)
                  ELSE IF g > Len(d) \/ d[g] # GT THEN VStop("err", g)
                  ELSE IF st = <<>> \/ st[Len(st)][1] # nm THEN VStop("err", i)
                  ELSE VGo(g + 1, SubSeq(st, 1, Len(st) - 1), s.found)
     ELSE LET ne == NameRun(d, i + 1)
              nm == SubSeq(d, i + 1, ne - 1)
              a  == VAttrs(d, ne, 0)
              self == a.ok /\ d[a.p] = SLASH
              g  == IF self THEN a.p + 1 ELSE a.p
          IN IF ~ValidName(nm) THEN VStop("err", i + 1)
             ELSE IF Len(st) >= MaxDepth THEN VStop("err", i)
             ELSE IF ~a.ok THEN VStop("err", a.p)
             ELSE IF g > Len(d) \/ d[g] # GT THEN VStop("err", g)
             ELSE VGo(g + 1, IF self THEN st ELSE Append(st, <<nm, i>>), TRUE)

VDoc(d) == LET step(s, n) == VToken(d, s)
               r == Fold(step, VGo(1, <<>>, FALSE), Upto(2 * Count(d, LT) + 3))
           IN [ok |-> r.v = "ok", p |-> r.p]

(* 1-based line and 0-based column of byte position p *)
LineCol(d, p) ==
  LET nls == {i \in 1..(p - 1) : d[i] = NL}
      lastNl == IF nls = {} THEN 0 ELSE CHOOSE i \in nls : \A j \in nls : j <= i
  IN <<1 + Cardinality(nls), p - 1 - lastNl>>

Validate(d) ==
  IF d = <<>> THEN [ok |-> FALSE, line |-> 1, col |-> 0]
  ELSE LET r == VDoc(d)
           lc == LineCol(d, r.p)
       IN IF r.ok THEN [ok |-> TRUE, line |-> 0, col |-> 0]
          ELSE [ok |-> FALSE, line |-> lc[1], col |-> lc[2]]

IsValid(d) == d # <<>> /\ VDoc(d).ok
=============================================================================
