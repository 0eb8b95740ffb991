------------------------------ MODULE Pattern ------------------------------
(***************************************************************************)
(* Wildcard patterns over Unicode characters: * any run, ? one character,  *)
(* backslash takes the next character literally.                           *)
(***************************************************************************)
EXTENDS Bytes

MaxIterations == 10000

(* UTF-8 bytes to code points (well-formed input) *)
RECURSIVE RunesFrom(_, _)
RunesFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] < 128 THEN <<s[i]>> \o RunesFrom(s, i + 1)
  ELSE IF s[i] < 224 THEN <<(s[i] - 192) * 64 + s[i + 1] - 128>> \o RunesFrom(s, i + 2)
  ELSE IF s[i] < 240 THEN <<(s[i] - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128>>
                          \o RunesFrom(s, i + 3)
  ELSE <<(s[i] - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128>>
       \o RunesFrom(s, i + 4)
Runes(s) == RunesFrom(s, 1)

(* tokens <<kind, char>> with kind 0 literal, 1 one character, 2 any run *)
RECURSIVE Toks(_, _)
Toks(p, i) ==
  IF i > Len(p) THEN <<>>
  ELSE IF p[i] = BSL /\ i < Len(p) THEN <<<<0, p[i + 1]>>>> \o Toks(p, i + 2)
  ELSE <<IF p[i] = STAR THEN <<2, 0>> ELSE IF p[i] = QM THEN <<1, 0>> ELSE <<0, p[i]>>>>
       \o Toks(p, i + 1)

(* declarative matching: the set of token positions reachable after each char *)
RECURSIVE StarClose(_, _)
StarClose(t, S) == LET N == S \cup {j + 1 : j \in {k \in S : k <= Len(t) /\ t[k][1] = 2}}
                   IN IF N = S THEN S ELSE StarClose(t, N)
Step(t, S, c) == StarClose(t, {j + 1 : j \in {k \in S : k <= Len(t) /\
                                  (t[k][1] = 1 \/ (t[k][1] = 0 /\ t[k][2] = c))}}
                              \cup {k \in S : k <= Len(t) /\ t[k][1] = 2})
RECURSIVE RunFrom(_, _, _, _)
RunFrom(t, s, i, S) == IF i > Len(s) THEN (Len(t) + 1) \in S
                       ELSE IF S = {} THEN FALSE
                       ELSE RunFrom(t, s, i + 1, Step(t, S, s[i]))

Match(str, pat) ==
  LET t == Toks(Runes(pat), 1)
      s == Runes(str)
  IN [m |-> RunFrom(t, s, 1, StarClose(t, {1})),
      stopped |-> Len(s) * Len(t) > MaxIterations]

HasWild(p) == ContainsAny(p, {STAR, QM, BSL})

(* does the filter  value % pattern  (neg: value !% pattern)  accept? *)
PatternAccepts(str, pat, neg) ==
  IF ~HasWild(pat) THEN (str = pat) # neg
  ELSE LET r == Match(str, pat) IN IF r.stopped THEN FALSE ELSE r.m # neg
=============================================================================
