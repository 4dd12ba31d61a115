------------------------------ MODULE PathText ------------------------------
(* Pathnames as text: case folding, the six parts, wild-card filters.         *)
(* A pathname is "/A/B/C/D/E/F/".                                             *)
EXTENDS Naturals, Sequences, TLC

LowerAbc == "abcdefghijklmnopqrstuvwxyz"
UpperAbc == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ch(s, i) == SubSeq(s, i, i)
UpMap == [c \in {Ch(LowerAbc, i) : i \in 1..26} |-> Ch(UpperAbc, CHOOSE i \in 1..26 : Ch(LowerAbc, i) = c)]
UpChar(c) == IF c \in DOMAIN UpMap THEN UpMap[c] ELSE c
RECURSIVE UpFrom(_, _)
UpFrom(s, i) == IF i > Len(s) THEN "" ELSE UpChar(Ch(s, i)) \o UpFrom(s, i + 1)
Upper(s) == UpFrom(s, 1)

(* positions of the slashes, then the parts *)
Slashes(s) == {i \in 1..Len(s) : Ch(s, i) = "/"}
RECURSIVE SlashSeq(_, _)
SlashSeq(s, i) == IF i > Len(s) THEN <<>> ELSE (IF Ch(s, i) = "/" THEN <<i>> ELSE <<>>) \o SlashSeq(s, i + 1)
Parts(s) == LET q == SlashSeq(s, 1) IN [n \in 1..6 |-> SubSeq(s, q[n] + 1, q[n + 1] - 1)]
WellFormed(s) == LET q == SlashSeq(s, 1) IN Len(q) = 7 /\ q[1] = 1 /\ q[7] = Len(s)

(* One filter part against one pathname part; both already upper case.
   "*" matches everything; "x*" a prefix, "*x" a suffix, "*x*" a substring;
   anything else (the empty part included) must be equal.                     *)
MatchPart(f, t) ==
  LET n == Len(f)
      pre == n > 1 /\ Ch(f, n) = "*"
      suf == n > 1 /\ Ch(f, 1) = "*"
      core == SubSeq(f, IF suf THEN 2 ELSE 1, IF pre THEN n - 1 ELSE n)
      k == Len(core)
  IN IF f = "*" THEN TRUE
     ELSE IF pre /\ suf THEN \E i \in 1..(Len(t) - k + 1) : SubSeq(t, i, i + k - 1) = core
     ELSE IF pre THEN Len(t) >= k /\ SubSeq(t, 1, k) = core
     ELSE IF suf THEN Len(t) >= k /\ SubSeq(t, Len(t) - k + 1, Len(t)) = core
     ELSE f = t
Match(fp, tp) == \A n \in 1..6 : MatchPart(fp[n], tp[n])
=============================================================================
