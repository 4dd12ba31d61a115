----------------------------- MODULE StoreTrace -----------------------------
(* Checks a recorded run of the real library against Store: each line of the  *)
(* trace is one API call with its arguments, status and results, and must be  *)
(* the step the specification allows.                                         *)
EXTENDS Store, PathText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Flds == {"p", "q"}
Texts == UNION {
   {Trace[i][f] : f \in Flds \cap DOMAIN Trace[i]} \cup
   (IF "l" \in DOMAIN Trace[i] THEN {Trace[i].l[j].p : j \in DOMAIN Trace[i].l} ELSE {}) : i \in 1..N}
Canon == TLCEval([s \in Texts |-> Upper(s)])
PartsOf == TLCEval([s \in {Canon[t] : t \in Texts} |-> IF WellFormed(s) THEN Parts(s) ELSE << >>])

VARIABLES l,     \* next line
          F,     \* file name -> file state
          L,     \* files in which space reclamation has been switched on
          H      \* handle -> file name
vars == <<l, F, L, H>>

e == Trace[l]
S == F[H[e.h]]
P == Canon[e.p]
Q == Canon[e.q]
ContentOf(x) == [ih |-> x.ih, h2 |-> x.h2, uh |-> x.uh, v1 |-> x.v1, v2 |-> x.v2, v3 |-> x.v3, n |-> x.n, nv |-> x.nv, ln |-> x.ln, ty |-> x.ty]
Content == ContentOf(e)
Init == l = 1 /\ F = << >> /\ H = << >> /\ L = {}
Is(x) == l <= N /\ e.e = x /\ l' = l + 1
Same == UNCHANGED <<F, H, L>>
Upd(T) == F' = [F EXCEPT ![H[e.h]] = T] /\ UNCHANGED <<H, L>>

Reset == Is("reset") /\ F' = << >> /\ H' = << >> /\ L' = {}
Open == Is("open") /\ e.st = 0 /\ H' = Plus(H, e.h, e.f)
        /\ F' = (IF e.f \in DOMAIN F THEN F ELSE Plus(F, e.f, EmptyFile))
        /\ UNCHANGED L
Close == Is("close") /\ e.st = 0 /\ H' = Minus(H, {e.h}) /\ UNCHANGED <<F, L>>
Setting == \/ (Is("zset") \/ Is("note")) /\ Same
           \/ Is("fset") /\ L' = (IF e.p = "reclaim" /\ e.v > 1 THEN L \cup {H[e.h]} ELSE L) /\ UNCHANGED <<F, H>>

TPut == Is("put") /\ IF PutAllowed(S, P, e.ty) THEN e.st = 0 /\ Upd(PutOk(S, P, Content, e.p)) ELSE e.st < 0 /\ Same
TGet == Is("get") /\ Same
        /\ IF IsLive(S, P) THEN e.st = 0 /\ Content = Rec(S, P).c /\ e.ver = Rec(S, P).ver
           ELSE e.st = -1
(* reading into arrays of the caller's size: the front of each array that was asked for, nothing beyond the space given, and the *)
(* number of words there was no room for                                                                                          *)
Least(a, b) == IF a < b THEN a ELSE b
TGetN == Is("getn") /\ Same
        /\ IF IsLive(S, P)
           THEN LET c == Rec(S, P).c
                    short == [i \in 1..6 |-> IF e.sz[i] > 0 /\ c.n[i] > e.sz[i] THEN c.n[i] - e.sz[i] ELSE 0] IN
                /\ e.st = 0 /\ e.su = 0 /\ Content = c /\ e.same = 1 /\ e.over = 0
                /\ \A i \in 1..6 : e.nu[i] = (IF e.sz[i] = 0 THEN 0 ELSE Least(e.sz[i], c.n[i]))
                /\ e.ins = short[1] + short[2] + short[3] + short[4] + short[5] + short[6]
           ELSE e.st = -1 /\ e.su = -1 /\ e.over = 0
TDel == Is("del") /\ e.st = DelSt(S, P) /\ Upd(Del(S, P))
(* with space reclamation on, what was deleted may be gone at once *)
TUndel == Is("undel") /\ (e.st \in UndelSts(S, P) \/ (e.st < 0 /\ H[e.h] \in L))
          /\ IF e.st = 0 THEN e.su = 0 /\ \E r \in Candidates(S, P) : r.c = Content /\ r.ver = e.ver /\ Upd(Undel(S, P, r)) ELSE Same
TUndelAll == Is("undelall") /\ e.st >= 0
  /\ LET R == {Canon[e.l[i].p] : i \in DOMAIN e.l} \ Names(S) IN
       /\ (UndelAllOk(S, R) \/ (H[e.h] \in L /\ R \subseteq Gone(S))) /\ e.st >= Cardinality(R)
       \* every name reads afterwards, those that were there as before, the others as an incarnation that was deleted
       /\ \A i \in DOMAIN e.l : e.l[i].su = 0
       /\ \A i \in DOMAIN e.l : LET x == Canon[e.l[i].p] IN IsLive(S, x) => Rec(S, x).c = ContentOf(e.l[i]) /\ Rec(S, x).ver = e.l[i].ver
       /\ LET Back(x) == {r \in Candidates(S, x) : \E i \in DOMAIN e.l : Canon[e.l[i].p] = x /\ r = [c |-> ContentOf(e.l[i]), ver |-> e.l[i].ver, d |-> e.l[i].p]}
          IN /\ \A x \in R : Back(x) # {}
             /\ Upd(UndelAll(S, R, [x \in R |-> CHOOSE r \in Back(x) : TRUE]))
TRen == Is("ren") /\ e.st = RenSt(S, P) /\ Upd(Ren(S, P, Q, e.q))
TDup == Is("dup") /\ CpyStOk(S, P, S, Q, e.st) /\ Upd(Dup(S, P, Q, e.q))
TCpy == Is("cpy") /\ CpyStOk(S, P, F[H[e.g]], Q, e.st)
        /\ F' = [F EXCEPT ![H[e.g]] = IF e.g = e.h THEN Dup(S, P, Q, e.q) ELSE Cpy(S, P, F[H[e.g]], Q, e.q)] /\ UNCHANGED <<H, L>>
TCpyFile == Is("cpyfile") /\ e.st = 0
        /\ F' = [F EXCEPT ![H[e.g]] = CpyFile(S, F[H[e.g]])] /\ UNCHANGED <<H, L>>
TSqueeze == Is("squeeze") /\ e.st = 0 /\ Upd(IF e.m = 3 /\ e.need = 0 THEN S ELSE Squeeze(S))
TAadd == Is("aadd") /\ (e.st = 0) = AaddOk(S, P, Q) /\ Upd(Aadd(S, P, Q, e.q))
TArem == Is("arem") /\ e.st = AremSt(S, P) /\ Upd(Arem(S, P))
TAremall == Is("aremall") /\ e.st = AremallSt(S, P) /\ Upd(Aremall(S, P))
TAprim == Is("aprim") /\ Same
        /\ IF IsLive(S, P) THEN e.st = 0 /\ Q = Prim(S, P) ELSE e.st # 0
TAlist == Is("alist") /\ Same
        /\ IF IsLive(S, P) THEN /\ {Canon[e.l[i].p] : i \in DOMAIN e.l} = AliasesOf(S, P) \cup {Prim(S, P)}
                                /\ e.st = Len(e.l) /\ e.st = 1 + Cardinality(AliasesOf(S, P))
           ELSE e.st = -1
TChk == Is("chk") /\ Same /\ e.st = IF IsLive(S, P) THEN 0 ELSE -1
TType == Is("type") /\ Same /\ IF IsLive(S, P) THEN e.st = Rec(S, P).c.ty ELSE e.st \in {0, 100, 110} \* absent: judged by the E part only
(* the record count comes from the handle's own copy of the file header *)
OnlyHandle == \A g \in DOMAIN H : H[g] = H[e.h] => g = e.h
TCnt == Is("cnt") /\ Same /\ (OnlyHandle => e.st = Count(S))
TBasics == Is("basics") /\ Same
        /\ IF IsLive(S, P) THEN e.st = 0 /\ LET r == Rec(S, P) IN
              /\ e.ver = r.ver /\ e.ty = r.c.ty /\ e.nv = r.c.nv /\ e.ln = r.c.ln
              /\ e.n = r.c.n
           ELSE e.st # 0

(* catalogue: exactly the names of the wanted status, of the wanted type range, matching the filter *)
TypeOf(n) == Rec(S, n).c.ty
DispOf(n) == IF IsAlias(S, n) THEN S.alias[n].d ELSE S.live[n].d
Wanted(w) == CASE w = 0 -> Names(S) [] w = 1 -> DOMAIN S.live [] w = 2 -> DOMAIN S.alias [] OTHER -> {}
InCat(n) == /\ (e.t0 = 0 \/ (TypeOf(n) >= e.t0 /\ TypeOf(n) <= e.t1))
            /\ (e.q = "" \/ Match(PartsOf[Q], PartsOf[n]))
CatExp(w) == {[p |-> DispOf(n), t |-> TypeOf(n)] : n \in {m \in Wanted(w) : InCat(m)}}
CatGot == {e.l[i] : i \in DOMAIN e.l}
(* a sorted catalogue is ordered by the parts A, B, C and then D, E, F; gridded data by A, B, C, F, D, E.  r holds the rank of each   *)
(* part; the parts of time series dates and intervals are ordered in time and judged in TsTrace.  Names of equal rank everywhere     *)
(* do not exist, and names of different kinds under the same A, B, C are in no particular order.                                     *)
SortKey(i) == LET q == e.r[i]
                  t == e.l[i].t IN IF t >= 400 /\ t < 500 THEN <<q[1], q[2], q[3], q[4], q[6], q[5]>> ELSE <<q[1], q[2], q[3], q[4], q[5], q[6]>>
SortClass(i) == LET t == e.l[i].t IN IF t >= 100 /\ t < 200 THEN 1 ELSE IF t >= 400 /\ t < 500 THEN 4 ELSE 0
LexLe(a, b, n) == LET I == {k \in 1..n : a[k] # b[k]} IN IF I = {} THEN TRUE ELSE LET k == CHOOSE k \in I : \A m \in I : k <= m IN a[k] < b[k]
InOrder == IF e.sorted = 0 THEN TRUE ELSE \A i, j \in DOMAIN e.l : i < j => LexLe(SortKey(i), SortKey(j), IF SortClass(i) = SortClass(j) /\ SortClass(i) # 1 THEN 6 ELSE 3)
TCat == Is("cat") /\ Same /\ e.st = Len(e.l) /\ (e.want # 11 => e.st = Cardinality(CatGot))
        /\ IF e.want \in {0, 1, 2} THEN CatGot = CatExp(e.want) /\ InOrder
           ELSE \* deleted records: at least the ones nothing has been written over, never a live one
                /\ (H[e.h] \in L \/ Fresh(S) \subseteq {Canon[x.p] : x \in CatGot})
                /\ {Canon[x.p] : x \in CatGot} \subseteq DOMAIN S.dead \cup DOMAIN S.ghost \cup Names(S)  \* an earlier incarnation of a live name may be listed
THcat == Is("hcat") /\ Same /\ (OnlyHandle => e.n = Count(S)) /\ e.st = Len(e.l) /\ e.st = Cardinality(CatGot)
        /\ CatGot = {[p |-> DispOf(n), t |-> TypeOf(n)] : n \in {m \in Names(S) : e.q = "" \/ Match(PartsOf[Q], PartsOf[m])}}
(* the library's own integrity check finds nothing *)
TZcheck == Is("zcheck") /\ Same /\ (OnlyHandle => e.a = 0 /\ e.b = 0 /\ e.c = 0 /\ e.st = 0)

Next == Reset \/ Open \/ Close \/ Setting \/ TPut \/ TGet \/ TGetN \/ TDel \/ TUndel \/ TUndelAll \/ TRen \/ TDup \/ TCpy
        \/ TCpyFile \/ TSqueeze \/ TAadd \/ TArem \/ TAremall \/ TAprim \/ TAlist \/ TChk \/ TType \/ TCnt \/ TBasics
        \/ TCat \/ THcat \/ TZcheck
Spec == Init /\ [][Next]_vars
Inv == \A f \in DOMAIN F : FileOk(F[f])
Reach == TLCSet(1, l)
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, N>>) /\ TLCGet("stats").diameter - 1 = N
=============================================================================
