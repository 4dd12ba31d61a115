------------------------------ MODULE StoreMC ------------------------------
(* The record store explored exhaustively for a few names, contents and       *)
(* versions.  Every transition is also printed (ACTION_CONSTRAINT Emit), and  *)
(* the harness replays all of them on the real library.                       *)
EXTENDS Store, Json
CONSTANTS Rnames, Anames, Contents, Types, MaxVer, Ops, Show
VARIABLES S, op, ans
vars == <<S, op, ans>>
All == Rnames \cup Anames
C(c, t) == [id |-> c, ty |-> t]
Init == S = EmptyFile /\ op = [o |-> "init"] /\ ans = 0
On(o) == o \in Ops
Do(o, T, a) == S' = T /\ op' = o /\ ans' = a

MPut == On("put") /\ \E p \in All, c \in Contents, t \in Types :
   /\ (p \in Anames => IsAlias(S, p))
   /\ IF PutAllowed(S, p, t) THEN Do([o |-> "put", p |-> p, c |-> c, t |-> t], PutOk(S, p, C(c, t), p), 0)
      ELSE Do([o |-> "put", p |-> p, c |-> c, t |-> t], S, -2)
MDel == On("del") /\ \E p \in All : Do([o |-> "del", p |-> p], Del(S, p), DelSt(S, p))
MUndel == On("undel") /\ \E p \in Rnames : 0 \in UndelSts(S, p) /\ UndelSts(S, p) # {0, -1} /\ ~S.rn
   /\ Do([o |-> "undel", p |-> p], Undel(S, p, S.dead[p].r), 0)
MRen == On("ren") /\ \E p \in All, q \in All : Do([o |-> "ren", p |-> p, q |-> q], Ren(S, p, q, q), RenSt(S, p))
MDup == On("dup") /\ \E p \in All, q \in All : p # q /\ (q \in Anames => IsAlias(S, q)) /\ Prim(S, p) # Prim(S, q)
   /\ Do([o |-> "dup", p |-> p, q |-> q], Dup(S, p, q, q), IF ~IsLive(S, p) THEN -1 ELSE IF PutAllowed(S, q, Rec(S, p).c.ty) THEN 0 ELSE -2)
MAadd == On("aadd") /\ \E p \in All, a \in Anames : Do([o |-> "aadd", p |-> p, q |-> a], Aadd(S, p, a, a), IF AaddOk(S, p, a) THEN 0 ELSE -2)
MArem == On("arem") /\ \E a \in Anames : Do([o |-> "arem", p |-> a], Arem(S, a), AremSt(S, a))
MAremall == On("aremall") /\ \E p \in All : Do([o |-> "aremall", p |-> p], Aremall(S, p), AremallSt(S, p))
MSqueeze == On("squeeze") /\ Do([o |-> "squeeze"], Squeeze(S), 0)
Next == MPut \/ MDel \/ MUndel \/ MRen \/ MDup \/ MAadd \/ MArem \/ MAremall \/ MSqueeze
Spec == Init /\ [][Next]_vars
View == [l |-> [p \in DOMAIN S.live |-> <<S.live[p].ver, S.live[p].c>>], a |-> [x \in DOMAIN S.alias |-> S.alias[x].to],
         d |-> [p \in DOMAIN S.dead |-> <<S.dead[p].fresh, S.dead[p].r.ver>>], rn |-> S.rn]
Bound == \A p \in DOMAIN S.live : S.live[p].ver <= MaxVer
BoundA == (\A p \in DOMAIN S'.live : S'.live[p].ver <= MaxVer)
Emit == BoundA /\ (Show => PrintT("@T " \o ToJson([f |-> View, o |-> op', t |-> View'])))

Inv == FileOk(S)
(* a record changes only by an operation that names it, or one of its aliases *)
Touched(o, T) == {Prim(T, o[k]) : k \in DOMAIN o \cap {"p", "q"}}
Isolation == [][op'.o # "squeeze" => \A p \in DOMAIN S.live \ Touched(op', S) : p \in DOMAIN S'.live /\ S'.live[p] = S.live[p]]_vars
SqueezeKeeps == [][op'.o = "squeeze" => S'.live = S.live]_vars
(* an alias disappears only by name, with its record, or by squeeze *)
AliasStays == [][op'.o \notin {"arem", "aremall", "squeeze", "del"} =>
                 \A a \in DOMAIN S.alias : (a \in DOMAIN S'.alias \/ (op'.o = "ren" /\ op'.q \in {a, S.alias[a].to}))]_vars
Refused == [][ans' < 0 => S' = S]_vars
ReadWrite == [][op'.o = "put" /\ ans' = 0 => Rec(S', op'.p).c = C(op'.c, op'.t)]_vars
UndelRestores == [][op'.o = "undel" => S'.live[op'.p] = S.dead[op'.p].r]_vars
=============================================================================
