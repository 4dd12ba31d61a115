----------------------------- MODULE ChangeTrace ----------------------------
(* StoreTrace with time: when each record and each file was last written, the *)
(* catalogues selected by write time, what has changed since a snapshot, and  *)
(* the check sums of the data.  Every call runs in milliseconds of its own,   *)
(* so the interval [u0, u1] of its event tells the times it may have stored.  *)
(*                                                                            *)
(*   W : file -> pathname of a live record -> [w |-> when its data were       *)
(*       written, c |-> when the catalogue says so], both as intervals        *)
(*   FT: file -> when the file was last written, an interval                  *)
(*   A : file -> alias -> intervals too (an alias has its own catalogue line) *)
(*   SN: <<slot, file or handle>> -> snapshot                                 *)
(*   K : check sums seen so far: set of <<data sections, check sum>>          *)
EXTENDS StoreTrace

VARIABLES W, FT, SN, K
tv == <<W, FT, SN, K>>

Now == IF "u0" \in DOMAIN e THEN [a |-> e.u0, b |-> e.u1] ELSE [a |-> -1, b |-> 0]
In(v, i) == v >= i.a /\ v <= i.b
Pt(v) == [a |-> v, b |-> v]
Hull(i, j) == [a |-> IF i.a < j.a THEN i.a ELSE j.a, b |-> IF i.b > j.b THEN i.b ELSE j.b]
f == H[e.h]
g == H[e.g]
S2(x) == F'[x]

Unk == [w |-> [a |-> -1, b |-> Now.b], c |-> [a |-> -1, b |-> Now.b]]
(* the records after a call on file x: those not written keep their times *)
Carry(x, upd) == [p \in DOMAIN F'[x].live |-> IF p \in DOMAIN upd THEN upd[p] ELSE IF p \in DOMAIN W[x].r THEN W[x].r[p] ELSE Unk]
(* the times of the dead are kept too: undelete brings them back *)
Dead(x) == [p \in DOMAIN F'[x].dead |-> IF p \in DOMAIN W[x].r /\ p \notin DOMAIN F'[x].live THEN W[x].r[p] ELSE IF p \in DOMAIN W[x].d THEN W[x].d[p] ELSE Unk]
WSet(x, upd) == [W EXCEPT ![x] = [r |-> Carry(x, upd), d |-> Dead(x)]]
Both == [w |-> Now, c |-> Now]
Touch(x) == FT' = [FT EXCEPT ![x] = Now]
May(x) == FT' = [FT EXCEPT ![x] = Hull(FT[x], Now)]
None == [x \in {} |-> Both]
One(p, v) == [x \in {p} |-> v]
Tail3 == UNCHANGED <<SN, K>>

CReset == Reset /\ W' = << >> /\ FT' = << >> /\ SN' = << >> /\ K' = {}
COpen == Open /\ Tail3
  /\ IF e.f \in DOMAIN F THEN UNCHANGED <<W, FT>>
     ELSE W' = Plus(W, e.f, [r |-> << >>, d |-> << >>]) /\ FT' = Plus(FT, e.f, Now)
CPlain == (Setting \/ TGet \/ TGetN \/ TAprim \/ TAlist \/ TChk \/ TType \/ TCnt \/ TBasics \/ TCat \/ THcat \/ TZcheck) /\ UNCHANGED tv
CTick == Is("tick") /\ Same /\ UNCHANGED tv
CNow == Is("now") /\ Same /\ UNCHANGED tv
(* what the handle itself keeps is gone with it *)
CClose == Close /\ UNCHANGED <<W, FT, K>> /\ SN' = Minus(SN, {<<7, e.h>>})
CPut == TPut /\ Tail3
  /\ IF e.st = 0 THEN W' = WSet(f, One(Prim(S2(f), P), Both)) /\ Touch(f) ELSE UNCHANGED W /\ May(f)
CDel == TDel /\ Tail3 /\ W' = WSet(f, None) /\ (IF e.st = 0 THEN Touch(f) ELSE May(f))
CUndel == TUndel /\ Tail3 /\ W' = WSet(f, IF e.st = 0 /\ Ghosts(S, P) # {} THEN One(P, Unk) ELSE IF e.st = 0 /\ P \in DOMAIN W[f].d THEN One(P, W[f].d[P]) ELSE None) /\ May(f)
CUndelAll == TUndelAll /\ Tail3 /\ May(f)
  /\ W' = WSet(f, [p \in DOMAIN W[f].d \cap DOMAIN F'[f].live |-> IF Ghosts(S, p) # {} THEN Unk ELSE W[f].d[p]])
(* a record keeps its times when it is renamed *)
CRen == TRen /\ Tail3
  /\ IF e.st = 0 THEN W' = WSet(f, One(Q, W[f].r[P])) /\ Touch(f) ELSE UNCHANGED W /\ May(f)
CDup == TDup /\ Tail3
  /\ IF e.st = 0 THEN W' = WSet(f, One(Prim(S2(f), Q), Both)) /\ Touch(f) ELSE UNCHANGED W /\ May(f)
(* a copy in another file tells when the data were written, and the catalogue there when it was copied *)
Src(x, p) == W[x].r[Prim(F[x], p)].w
CCpy == TCpy /\ Tail3
  /\ IF e.st = 0
     THEN /\ W' = WSet(g, One(Prim(S2(g), Q), IF f = g THEN Both ELSE [w |-> Src(f, P), c |-> Now]))
          /\ Touch(g)
     ELSE UNCHANGED W /\ May(g)
CCpyFile == TCpyFile /\ Tail3 /\ May(g)
  /\ W' = WSet(g, [p \in {Prim(S2(g), q) : q \in DOMAIN F[f].live} |-> [w |-> IF p \in DOMAIN F[f].live /\ DOMAIN F[g].alias \cap DOMAIN F[f].live = {} THEN W[f].r[p].w ELSE Unk.w, c |-> Now]])
CSqueeze == TSqueeze /\ UNCHANGED K /\ SN' = Minus(SN, {<<7, e.h>>}) /\ May(f)
  /\ W' = [W EXCEPT ![f] = [r |-> [p \in DOMAIN F'[f].live |-> [w |-> W[f].r[p].w, c |-> Hull(W[f].r[p].c, Now)]], d |-> << >>]]
CAlias == (TAadd \/ TArem \/ TAremall) /\ Tail3 /\ W' = WSet(f, None) /\ May(f)

(* ------------------------------ observations ------------------------------ *)
CWt == Is("wt") /\ Same /\ UNCHANGED <<FT, SN, K>>
  /\ IF IsLive(S, P)
     THEN LET q == Prim(S, P) IN In(e.v, W[f].r[q].w) /\ W' = [W EXCEPT ![f].r[q].w = Pt(e.v)]
     ELSE e.v = -1 /\ UNCHANGED W
(* the time of the file comes from the handle's own copy of the header when it is locked; otherwise it is read *)
CWtf == Is("wtf") /\ Same /\ In(e.v, FT[f]) /\ FT' = [FT EXCEPT ![f] = Pt(e.v)] /\ UNCHANGED <<W, SN, K>>

Ok(flag, i, ref) == CASE flag = -2 -> i.a < ref [] flag = -1 -> i.a <= ref [] flag = 0 -> i.a <= ref /\ i.b >= ref [] flag = 1 -> i.b >= ref [] OTHER -> i.b > ref
Sure(flag, i, ref) == CASE flag = -2 -> i.b < ref [] flag = -1 -> i.b <= ref [] flag = 0 -> i.a = ref /\ i.b = ref [] flag = 1 -> i.a >= ref [] OTHER -> i.a > ref
PartOk(q, n) == IF q = "" THEN TRUE ELSE (Match(PartsOf[Canon[q]], PartsOf[n]) = TRUE)    \* a value: an action would branch
(* L lists exactly the records of file x whose catalogue time is as wanted, with that time and their type; aliases are not judged *)
ListedOk(x, Lst, flag, ref, q) ==
  LET Z == F[x]
      nm(i) == Canon[Lst[i].p]
      I == DOMAIN Lst
  IN /\ Cardinality({nm(i) : i \in I}) = Len(Lst)
     /\ \A i \in I : /\ nm(i) \in Names(Z) /\ PartOk(q, nm(i))
                     /\ Lst[i].t = Z.live[Prim(Z, nm(i))].c.ty
                     /\ Lst[i].p = (IF IsAlias(Z, nm(i)) THEN Z.alias[nm(i)].d ELSE Z.live[nm(i)].d)
                     /\ nm(i) \in DOMAIN Z.live => In(Lst[i].w, W[x].r[nm(i)].c) /\ (ref = -1 \/ Ok(flag, Pt(Lst[i].w), ref))
     /\ \A p \in DOMAIN Z.live : PartOk(q, p) /\ (ref = -1 \/ Sure(flag, W[x].r[p].c, ref)) => \E i \in I : nm(i) = p
     /\ ref = -1 => \A p \in DOMAIN Z.alias : PartOk(q, p) => \E i \in I : nm(i) = p
Narrow(x, Lst) == [W EXCEPT ![x].r = [p \in DOMAIN W[x].r |-> IF \E i \in DOMAIN Lst : Canon[Lst[i].p] = p
                       THEN [W[x].r[p] EXCEPT !.c = Pt(Lst[CHOOSE i \in DOMAIN Lst : Canon[Lst[i].p] = p].w)] ELSE W[x].r[p]]]
CCatw == Is("catw") /\ Same /\ UNCHANGED <<SN, K>>
  /\ e.st = Len(e.l) /\ In(e.ft, FT[f]) /\ FT' = [FT EXCEPT ![f] = Pt(e.ft)]
  /\ ListedOk(f, e.l, e.flag, e.ref, e.q) = TRUE /\ W' = Narrow(f, e.l)

(* check sums: of the data sections and headers, and of nothing else *)
Data(c) == <<c.v1, c.v2, c.v3, c.h2, c.uh>>
CCrc == Is("crc") /\ Same /\ UNCHANGED <<W, FT, SN>>
  /\ IF ~IsLive(S, P) THEN e.v = "0" /\ UNCHANGED K
     ELSE LET d == Data(Rec(S, P).c) IN
          /\ \A k \in K : (k[1] = d) = (k[2] = e.v)
          /\ K' = K \cup {<<d, e.v>>}

(* a snapshot: the time of the file, and with check sums also the data of the records *)
Key == IF e.k = 7 THEN <<7, e.h>> ELSE <<e.k, 0>>
CSnap == Is("snap") /\ Same /\ UNCHANGED <<W, FT, K>> /\ e.st >= 0
  /\ SN' = Plus(SN, Key, [f |-> f, ft |-> FT[f], q |-> e.q, crc |-> e.crc = 1 /\ \E n \in Names(S) : PartOk(e.q, n),
                          d |-> [p \in {n \in Names(S) : PartOk(e.q, n)} |-> [c |-> Data(Rec(S, p).c), s |-> Rec(S, p).d]]])
Altered(n, p) == IF p \in DOMAIN n.d THEN n.d[p].c # Data(Rec(S, p).c) ELSE TRUE
CChg == Is("chg") /\ Same /\ UNCHANGED <<FT, SN, K>> /\ Key \in DOMAIN SN
  /\ LET n == SN[Key]
         nm(i) == Canon[e.l[i].p]
     IN /\ n.f = f /\ e.st = Len(e.l)
        /\ TRUE = IF ~n.crc
           THEN /\ \A i \in DOMAIN e.l : nm(i) \in Names(S) /\ (nm(i) \in DOMAIN S.live => W[f].r[nm(i)].c.b > n.ft.a)
                /\ \A i \in DOMAIN e.l : PartOk(n.q, nm(i)) /\ e.l[i].t = Rec(S, nm(i)).c.ty /\ (nm(i) \in DOMAIN S.live => In(e.l[i].w, W[f].r[nm(i)].c))
                /\ \A p \in DOMAIN S.live : PartOk(n.q, p) /\ W[f].r[p].c.a > n.ft.b => \E i \in DOMAIN e.l : nm(i) = p
           ELSE /\ \A i \in DOMAIN e.l : PartOk(n.q, nm(i)) /\ nm(i) \in Names(S) /\ e.l[i].t = Rec(S, nm(i)).c.ty
                /\ \A i \in DOMAIN e.l : nm(i) \in DOMAIN S.live =>
                       /\ W[f].r[nm(i)].c.b > n.ft.a /\ In(e.l[i].w, W[f].r[nm(i)].c)
                       /\ Altered(n, nm(i))
                /\ \A p \in DOMAIN S.live : PartOk(n.q, p) /\ W[f].r[p].c.a > n.ft.b
                       /\ Altered(n, p) => \E i \in DOMAIN e.l : nm(i) = p
        /\ Cardinality({nm(i) : i \in DOMAIN e.l}) = Len(e.l)
        /\ W' = Narrow(f, e.l)

CInit == Init /\ W = << >> /\ FT = << >> /\ SN = << >> /\ K = {}
CNext == CReset \/ COpen \/ CPlain \/ CTick \/ CNow \/ CClose \/ CPut \/ CDel \/ CUndel \/ CUndelAll \/ CRen \/ CDup \/ CCpy \/ CCpyFile \/ CSqueeze \/ CAlias
         \/ CWt \/ CWtf \/ CCatw \/ CCrc \/ CSnap \/ CChg
CSpec == CInit /\ [][CNext]_<<vars, tv>>
(* nothing was written before the clock started or after the file's last write *)
CInv == Inv
=============================================================================
