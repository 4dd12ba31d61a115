-------------------------------- MODULE Store --------------------------------
(* The record store of one or more HEC-DSS files: what a user of the record   *)
(* level API can observe.  A file is a map from canonical (upper case)        *)
(* pathname to record, a set of aliases, and the deleted records that may     *)
(* still be brought back.                                                     *)
(*                                                                            *)
(*   live  : pathname -> [c |-> content, ver |-> version, d |-> spelling]     *)
(*   alias : pathname -> [to |-> primary pathname, d |-> spelling]            *)
(*   dead  : pathname -> [r |-> record as it was, fresh |-> BOOLEAN]          *)
(*           fresh: nothing has been written in the file since the deletion,  *)
(*           so undelete must succeed; otherwise it may find the space gone.  *)
(*   ghost : pathname -> set of records; earlier deleted incarnations that a  *)
(*           rename may have left behind in the file (rn: one has happened).  *)
(*           They are listed as deleted, and undelete may bring one back.     *)
(*                                                                            *)
(* Every operation is a function from file state to file state plus the       *)
(* status the caller sees, so that the exhaustive model (StoreMC), the        *)
(* behaviour generator (StoreGen) and the trace checker (StoreTrace) use the  *)
(* same definitions.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

EmptyFile == [live |-> << >>, alias |-> << >>, dead |-> << >>, ghost |-> << >>, rn |-> FALSE]

Dom(f) == DOMAIN f
Minus(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
Plus(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Haunt(g, p, r) == [x \in (DOMAIN g) \cup {p} |-> IF x = p THEN {r} \cup (IF p \in DOMAIN g THEN g[p] ELSE {}) ELSE g[x]]
Stale(d) == [x \in DOMAIN d |-> [d[x] EXCEPT !.fresh = FALSE]]

IsAlias(S, p) == p \in DOMAIN S.alias
Prim(S, p) == IF IsAlias(S, p) THEN S.alias[p].to ELSE p
IsLive(S, p) == Prim(S, p) \in DOMAIN S.live
Rec(S, p) == S.live[Prim(S, p)]
AliasesOf(S, p) == {a \in DOMAIN S.alias : S.alias[a].to = Prim(S, p)}
Names(S) == DOMAIN S.live \cup DOMAIN S.alias
Count(S) == Cardinality(DOMAIN S.live) + Cardinality(DOMAIN S.alias)

(* ------------------------------ operations ------------------------------- *)
(* a record may only be overwritten by one of its own kind (float and double
   time series are one kind): otherwise the write is refused, nothing changes *)
Kind(t) == CASE t \in {100, 105} -> 100 [] t \in {110, 115} -> 110 [] OTHER -> t
PutAllowed(S, p, ty) == IsLive(S, p) => Kind(Rec(S, p).c.ty) = Kind(ty)
PutOk(S, p, c, disp) ==
  LET q == Prim(S, p)
      r == IF q \in DOMAIN S.live
           THEN [c |-> c, ver |-> IF S.live[q].ver < 0 THEN -1 ELSE S.live[q].ver + 1, d |-> S.live[q].d]
           ELSE [c |-> c, ver |-> 1, d |-> disp]
  IN [S EXCEPT !.live = Plus(S.live, q, r), !.dead = Stale(Minus(S.dead, {q})),
               !.ghost = IF q \in DOMAIN S.dead THEN Haunt(S.ghost, q, S.dead[q].r) ELSE S.ghost]

(* delete: removes the record and every alias of it; status -1 if absent *)
DelSt(S, p) == IF IsLive(S, p) THEN 0 ELSE -1
Del(S, p) ==
  IF ~IsLive(S, p) THEN S
  ELSE LET q == Prim(S, p) IN
       [S EXCEPT !.live = Minus(S.live, {q}), !.alias = Minus(S.alias, AliasesOf(S, q)),
                 !.dead = Plus(S.dead, q, [r |-> S.live[q], fresh |-> TRUE])]

(* undelete: what may come back, and the statuses the caller may see *)
(* (once something was written after the deletion, the name of the last incarnation
   may be overwritten while that of an earlier one is not)                      *)
Ghosts(S, p) == IF p \in DOMAIN S.ghost /\ (S.rn \/ (p \in DOMAIN S.dead /\ ~S.dead[p].fresh)) THEN S.ghost[p] ELSE {}
Candidates(S, p) == Ghosts(S, p) \cup (IF p \in DOMAIN S.dead THEN {S.dead[p].r} ELSE {})
UndelSts(S, p) ==
  IF Candidates(S, p) # {} /\ p \notin Names(S)
  THEN IF p \in DOMAIN S.dead /\ S.dead[p].fresh THEN {0} ELSE {0, -1} ELSE {-1}
Undel(S, p, r) == [S EXCEPT !.live = Plus(S.live, p, r), !.dead = Minus(S.dead, {p})]
(* undelete all: the names R come back, with fresh <= R <= deleted *)
Fresh(S) == {p \in DOMAIN S.dead : S.dead[p].fresh /\ p \notin Names(S)}
Gone(S) == (DOMAIN S.dead \cup (IF S.rn THEN DOMAIN S.ghost ELSE {})) \ Names(S)
UndelAllOk(S, R) == Fresh(S) \subseteq R /\ R \subseteq Gone(S)
UndelAll(S, R, pick) ==
  [S EXCEPT !.live = [x \in DOMAIN S.live \cup R |-> IF x \in R THEN pick[x] ELSE S.live[x]], !.dead = Minus(S.dead, R)]
(* rename p to q: p keeps its content, version and aliases; a record q is gone,
   as if deleted; an alias q no longer stands for its record.  An alias is not
   a record of its own and cannot be renamed.                                 *)
RenSt(S, p) == IF p \in DOMAIN S.live THEN 0 ELSE -1
Ren(S, p, q, disp) ==
  IF RenSt(S, p) # 0 THEN S
  ELSE LET r == [S.live[p] EXCEPT !.d = disp]
           S1 == IF q = p THEN S ELSE IF q \in DOMAIN S.alias THEN [S EXCEPT !.alias = Minus(S.alias, {q})]
                 ELSE IF q \in DOMAIN S.live THEN Del(S, q) ELSE S
           S2 == [S1 EXCEPT !.live = Plus(Minus(S1.live, {p}), q, r),
                            !.alias = [a \in DOMAIN S1.alias |-> IF S1.alias[a].to = p THEN [S1.alias[a] EXCEPT !.to = q] ELSE S1.alias[a]]]
       IN [S2 EXCEPT !.dead = Stale(Minus(S2.dead, {p, q})), !.rn = TRUE,
                     !.ghost = IF q \in DOMAIN S2.dead THEN Haunt(S2.ghost, q, S2.dead[q].r) ELSE S2.ghost]

(* copy the record p of S into U under the name q *)
CpyAllowed(S, p, U, q) == IsLive(S, p) => PutAllowed(U, q, Rec(S, p).c.ty)
CpyStOk(S, p, U, q, st) == IF ~IsLive(S, p) THEN st < 0 ELSE IF CpyAllowed(S, p, U, q) THEN st = 0 ELSE st < 0
(* within a file a copy is a write of the same content; into another file the
   copy also keeps the version of its source *)
Dup(S, p, q, disp) == IF IsLive(S, p) /\ PutAllowed(S, q, Rec(S, p).c.ty) THEN PutOk(S, q, Rec(S, p).c, disp) ELSE S
CpyOk(U, q, r, disp) == LET V == PutOk(U, q, r.c, disp) IN [V EXCEPT !.live[Prim(U, q)].ver = r.ver]
Cpy(S, p, U, q, disp) == IF IsLive(S, p) /\ CpyAllowed(S, p, U, q) THEN CpyOk(U, q, Rec(S, p), disp) ELSE U

AaddOk(S, p, a) == IsLive(S, p) /\ a \notin Names(S)
Aadd(S, p, a, disp) ==
  IF ~AaddOk(S, p, a) THEN S
  ELSE [S EXCEPT !.alias = Plus(S.alias, a, [to |-> Prim(S, p), d |-> disp]), !.dead = Stale(Minus(S.dead, {a})),
                  !.ghost = IF a \in DOMAIN S.dead THEN Haunt(S.ghost, a, S.dead[a].r) ELSE S.ghost]
AremSt(S, a) == IF IsAlias(S, a) THEN 0 ELSE -1
Arem(S, a) == [S EXCEPT !.alias = Minus(S.alias, {a})]
AremallSt(S, p) == IF IsLive(S, p) /\ AliasesOf(S, p) # {} THEN Cardinality(AliasesOf(S, p)) ELSE -1
Aremall(S, p) == IF IsLive(S, p) THEN [S EXCEPT !.alias = Minus(S.alias, AliasesOf(S, p))] ELSE S

(* squeeze keeps every live record; deleted records are gone for good.  The
   library's squeeze does not carry aliases over.                              *)
Squeeze(S) == [S EXCEPT !.alias = << >>, !.dead = << >>, !.ghost = << >>, !.rn = FALSE]

(* (a version of -1: not known, after a write which was cut off; see ConcTrace)
   copy every live record of S into U *)
RECURSIVE CpyAll(_, _, _)
CpyAll(S, U, X) == IF X = {} THEN U ELSE LET x == CHOOSE y \in X : TRUE IN CpyAll(S, CpyOk(U, x, S.live[x], S.live[x].d), X \ {x})
CpyFile(S, U) == CpyAll(S, U, DOMAIN S.live)

(* ------------------------------ well-formedness -------------------------- *)
FileOk(S) ==
  /\ \A a \in DOMAIN S.alias : S.alias[a].to \in DOMAIN S.live
  /\ DOMAIN S.alias \cap DOMAIN S.live = {}
  /\ DOMAIN S.dead \cap Names(S) = {}
  /\ \A p \in DOMAIN S.live : S.live[p].ver >= 1
=============================================================================
