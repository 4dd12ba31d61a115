------------------------------- MODULE TsTrace -------------------------------
(* Checks a recorded run of the time series functions of the real library     *)
(* against TsData: every stored and every retrieved value, time, quality and  *)
(* note.                                                                      *)
EXTENDS TsData, PathText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Texts == UNION {
   (IF "p" \in DOMAIN Trace[i] THEN {Trace[i].p} ELSE {}) \cup
   (IF "l" \in DOMAIN Trace[i] THEN {Trace[i].l[j].p : j \in DOMAIN Trace[i].l} ELSE {}) : i \in 1..N}
PartsOf == TLCEval([s \in Texts |-> LET u == Upper(s) IN IF WellFormed(u) THEN Parts(u) ELSE << >>])
Path(q, d) == "/" \o q[1] \o "/" \o q[2] \o "/" \o q[3] \o "/" \o d \o "/" \o q[5] \o "/" \o q[6] \o "/"
(* the series a pathname belongs to: the pathname without its date part *)
KeyOf == TLCEval([s \in Texts |-> IF PartsOf[s] = << >> THEN "" ELSE Path(PartsOf[s], "")])

VARIABLES l,     \* next line
          F,     \* file name -> pathname without date -> series
          H      \* handle -> file name
vars == <<l, F, H>>
e == Trace[l]
K == KeyOf[e.p]
E == PartsOf[e.p][5]
All == F[H[e.h]]
S == IF K \in DOMAIN All THEN All[K] ELSE EmptySeries
Init == l = 1 /\ F = << >> /\ H = << >>
Is(x) == l <= N /\ e.e = x /\ l' = l + 1
Same == UNCHANGED <<F, H>>
PlusF(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Upd(T) == F' = [F EXCEPT ![H[e.h]] = PlusF(@, K, T)] /\ UNCHANGED H

Reset == Is("reset") /\ F' = << >> /\ H' = << >>
Open == Is("open") /\ e.st = 0 /\ H' = PlusF(H, e.h, e.f)
        /\ F' = (IF e.f \in DOMAIN F THEN F ELSE PlusF(F, e.f, << >>))
Close == Is("close") /\ e.st = 0 /\ H' = Without(H, {e.h}) /\ UNCHANGED F
Setting == (Is("zset") \/ Is("note") \/ Is("fset")) /\ Same
Squeeze == Is("squeeze") /\ e.st = 0 /\ Same
Zcheck == Is("zcheck") /\ Same /\ e.a = 0 /\ e.b = 0 /\ e.c = 0 /\ e.st = 0

(* ------------------------------- storing --------------------------------- *)
Given(j) == [v |-> IF e.dbl = 1 THEN e.v[j] ELSE e.f[j], f |-> e.f[j], q |-> IF e.qw > 0 THEN e.q[j] ELSE "", i |-> IF e.iw > 0 THEN e.i[j] ELSE "", c |-> IF e.cw > 0 THEN e.c[j] ELSE ""]
Attr(off) == [u |-> e.units, tt |-> e.tt, tz |-> e.tz, dbl |-> e.dbl = 1, off |-> off, qw |-> e.qw, iw |-> e.iw, cn |-> e.cw > 0,
              dn |-> e.dn, dep |-> e.dep, ud |-> e.ud]
(* character notes and integer notes exclude each other: refused *)
Refused == e.cw > 0 /\ e.iw > 0
(* A block of profiles keeps its precision and its number of depths (none for plain values): another is refused   *)
(* at the first block that has another, the blocks before it are stored.                                          *)
BlkOf(k) == IF Regular(E) THEN BlockOfSlot(E, k) ELSE BlockAt(E, k)
Precision(n, dbl) == IF n = 0 THEN 0 ELSE IF dbl THEN 2 ELSE 1
Clash(b) == b \in DOMAIN S.b /\ (S.b[b].dn # e.dn \/ Precision(S.b[b].dn, S.b[b].dbl) # Precision(e.dn, e.dbl = 1))
Stored(g, Change(_)) ==
  LET clash == {b \in {BlkOf(k) : k \in DOMAIN g} : Clash(b)} IN
  IF clash = {} THEN e.st = 0 /\ Upd(Change(g))
  ELSE e.st # 0 /\ Upd(Change(Restrict(g, {k \in DOMAIN g : BlkOf(k) < MinOf(clash)})))
TsPut == Is("tsput") /\ IF Refused THEN e.st # 0 /\ Same ELSE
   LET t == At(e.at)  k0 == Slot(E, t)
       g == [k \in k0 .. (k0 + e.n - 1) |-> Given(k - k0 + 1)]
       put(x) == Put(E, S, x, Attr(Offset(E, t)), e.flag)
   IN Stored(g, put)
Instant(base, gran, t) == LET per == DaySecs \div gran IN Norm(base + t \div per, (t % per) * gran)
IrrPut == Is("irput") /\ IF Refused THEN e.st # 0 /\ Same ELSE
   LET base == IF e.base = << >> THEN 0 ELSE DayOf(e.base[1], e.base[2], e.base[3])
       at == [j \in 1 .. e.n |-> Instant(base, e.gran, e.t[j])]
       g == [t \in {at[j] : j \in 1 .. e.n} |-> Given(CHOOSE j \in 1 .. e.n : at[j] = t)]
       put(x) == IF x = << >> THEN S ELSE IrPut(E, S, x, Attr(0), e.flag)
   IN Stored(g, put)

(* ------------------------------ retrieving ------------------------------- *)
(* an item of w0 elements shown in w *)
Wide(s, w0, w) == IF w = 0 THEN "" ELSE IF s = "" \/ w0 = 0 THEN "0" \o Zeros(w - 1) ELSE s \o Zeros(w - w0)
Attrs(B) == {S.b[b] : b \in B}
Width(B, f) == LET W == {S.b[b][f] : b \in B} IN IF W = {} THEN 0 ELSE MaxOf(W)
(* one value as the caller sees it, from a block of floats or doubles *)
Shown(x, a, sz) == IF sz = 1 \/ ~a.dbl THEN x.f ELSE x.v
SizeOk(B) == CASE e.dbl = 1 -> e.sz = 1 [] e.dbl = 2 \/ e.via = 1 -> e.sz = 2
               [] (\A a \in Attrs(B) : a.dbl) -> e.sz = 2 [] (\A a \in Attrs(B) : ~a.dbl) -> e.sz = 1 [] OTHER -> e.sz \in {1, 2}
LabelsOk(B) == \E a \in Attrs(B) : e.units = a.u /\ e.tt = a.tt /\ e.tz = a.tz /\ e.ud = a.ud /\ e.dn = a.dn /\ \E b \in Attrs(B) : e.dep = b.dep
(* Quality and notes of the j-th value shown, from its entry and the attributes of its block.  Whether an array *)
(* without content is handed out is left open; notes of both kinds side by side are not shown together.         *)
Empty(s) == s = "" \/ \A i \in 1 .. Len(s) : Elm(s, i) \in {"0", ";"}
NotesOk(B, ent(_), att(_)) ==
  LET qw == Width(B, "qw")  iw == Width(B, "iw")
      items(w, width, shown, f, aw) == IF width = 0 THEN \A j \in 1..e.n : Empty(ent(j)[f]) ELSE width >= w /\ shown = [j \in 1..e.n |-> Wide(ent(j)[f], att(j)[aw], width)]
  IN
  /\ IF e.qual = 0 THEN TRUE
     ELSE IF e.via = 1 THEN e.q = [j \in 1..e.n |-> IF qw = 0 \/ ent(j).q = "" THEN "0" ELSE First(ent(j).q)]
     ELSE items(qw, e.qw, e.q, "q", "qw")
  /\ (e.via = 0 /\ e.qual = 1) => /\ (items(iw, e.iw, e.i, "i", "iw") \/ (e.iw = 0 /\ \E b \in DOMAIN S.b : S.b[b].cn))
                                  /\ (IF e.cw = 0 THEN (\E b \in DOMAIN S.b : S.b[b].iw > 0) \/ \A j \in 1..e.n : ent(j).c = "" ELSE e.c = [j \in 1..e.n |-> ent(j).c])
Trimmed == e.flag \in {-1, -3}
Untimed == e.flag \in {-2, -3}

Open0 == e.all = 1 \/ e.from = << >>
(* Blocks of profiles with different numbers of depths are not read together, and hec_dss_tsRetrieve has no place *)
(* for a profile: refused.                                                                                      *)
Unfit(B) == Cardinality({S.b[b].dn : b \in B}) > 1 \/ (e.via = 1 /\ \E b \in B : S.b[b].dn > 0)
NoAttr == [qw |-> 0, iw |-> 0, dbl |-> TRUE]
(* a date part without a time window asks for that block *)
Blocked == Open0 /\ e.all = 0 /\ e.via = 0 /\ PartsOf[e.p][4] # ""
BlockNamed == {b \in DOMAIN S.b : DPart(b) = PartsOf[e.p][4]}
RegGet ==
  LET B0 == DOMAIN S.b
      off == IF B0 = {} THEN 0 ELSE S.b[MinOf(B0)].off
      (* the window asked for; without one, what the result says, which must cover every valid value *)
      blk == IF BlockNamed = {} THEN 1 ELSE CHOOSE b \in BlockNamed : TRUE
      w0 == IF Blocked THEN Slot(E, <<blk, 1>>) ELSE IF Open0 THEN (IF e.st = 0 THEN Slot(E, IF e.via = 0 THEN e.s ELSE e.t[1]) ELSE 0) ELSE Slot(E, At(e.from))
      w1 == IF Blocked THEN Slot(E, <<NextBlock(BlockKind(E), blk) - 1, DaySecs>>) ELSE IF Open0 THEN (IF e.st = 0 THEN w0 + e.n - 1 ELSE 0) ELSE Slot(E, At(e.to))
      B == IF Blocked THEN BlockNamed ELSE IF Open0 THEN B0 ELSE BlocksIn(E, S, w0, w1)
      V == {k \in ValidSlots(S) : k >= w0 /\ k <= w1}
      k0 == IF Trimmed /\ V # {} THEN MinOf(V) ELSE w0
      k1 == IF Trimmed /\ V # {} THEN MaxOf(V) ELSE w1
      ent(j) == EntryOf(S, k0 + j - 1)
      att(j) == LET b == BlockOfSlot(E, k0 + j - 1) IN IF b \in DOMAIN S.b THEN S.b[b] ELSE NoAttr
  IN IF Open0 /\ ~Blocked /\ ValidSlots(S) = {} /\ e.st < 0 THEN e.n = 0     \* no valid value, so no range to read; it may say so
     ELSE IF Unfit(B) THEN e.st # 0
     ELSE IF B = {} \/ (Trimmed /\ V = {}) THEN (IF Open0 THEN e.st < 0 ELSE e.st = -1) /\ e.n = 0
     ELSE /\ e.st = 0 /\ e.n = k1 - k0 + 1
          /\ (Open0 /\ ~Blocked) => \A k \in ValidSlots(S) : k >= k0 /\ k <= k1
          /\ SizeOk(B) /\ LabelsOk(B)
          /\ e.v = [j \in 1..e.n |-> Shown(ent(j), att(j), e.sz)]
          /\ (~Untimed => e.t = [j \in 1..e.n |-> SlotTime(E, k0 + j - 1, off)])
          /\ (e.via = 0 => e.s = SlotTime(E, k0, off) /\ e.x = SlotTime(E, k1, off) /\ e.off = off)
          /\ NotesOk(B, ent, att)

RECURSIVE Sorted(_)
Sorted(T) == IF T = {} THEN << >> ELSE LET m == CHOOSE t \in T : \A u \in T : NotAfter(t, u) IN <<m>> \o Sorted(T \ {m})
IrrGet ==
  LET Ts == DOMAIN S.v
      a == IF Open0 THEN <<0, 0>> ELSE At(e.from)
      b == IF Open0 THEN <<0, 0>> ELSE At(e.to)
      W == IF Blocked THEN {t \in Ts : BlockAt(E, t) \in BlockNamed} ELSE IF Open0 THEN Ts ELSE {t \in Ts : NotAfter(a, t) /\ NotAfter(t, b)}
      kind == BlockKind(E)
      bb == BlockAt(E, a)  be == BlockAt(E, b)
      BW == IF Blocked THEN BlockNamed ELSE {x \in DOMAIN S.b : Open0 \/ x \in {BlockAt(E, t) : t \in W} \/ (~Open0 /\ x >= bb /\ x <= be)}
      InB(blk) == \E t \in W : BlockAt(E, t) = blk
      Pre == {t \in Ts : Before(t, a)}  Post == {t \in Ts : Before(b, t)}
      pre == CHOOSE t \in Pre : \A u \in Pre : NotAfter(u, t)
      post == CHOOSE t \in Post : \A u \in Post : NotAfter(t, u)
      wantP == ~Open0 /\ e.flag \in {1, 3} /\ Pre # {}
      wantN == ~Open0 /\ e.flag \in {2, 3} /\ Post # {}
      (* a neighbour outside the blocks next to the window need not be found *)
      nearP == wantP /\ BlockAt(E, pre) = bb /\ InB(bb)
      nearN == wantN /\ BlockAt(E, post) = be /\ InB(be)
      Choice == {W \cup (IF x THEN {pre} ELSE {}) \cup (IF y THEN {post} ELSE {}) :
                   x \in (IF nearP THEN {TRUE} ELSE IF wantP THEN {TRUE, FALSE} ELSE {FALSE}),
                   y \in (IF nearN THEN {TRUE} ELSE IF wantN THEN {TRUE, FALSE} ELSE {FALSE})}
  IN \/ (IF Open0 THEN e.st < 0 ELSE e.st = -1) /\ e.n = 0 /\ {} \in Choice
     \/ IF Unfit(BW) THEN e.st # 0 \/ (W = {} /\ e.n = 0) ELSE e.st = 0 /\ \E R \in Choice :
          LET q == Sorted(R)  B == {BlockAt(E, t) : t \in R}
              ent(j) == S.v[q[j]]
              att(j) == S.b[BlockAt(E, q[j])]
          IN /\ e.n = Len(q)
             /\ R # {} => /\ e.t = q /\ SizeOk(B) /\ LabelsOk(DOMAIN S.b)
                          /\ e.v = [j \in 1..e.n |-> Shown(ent(j), att(j), e.sz)]
                          /\ NotesOk(B, ent, att)
TsGet == Is("tsget") /\ Same /\ (IF Regular(E) THEN RegGet ELSE IrrGet)

TsSize == Is("tssize") /\ Same /\
   LET W == IF Regular(E) THEN LET k0 == Slot(E, At(e.from)) k1 == Slot(E, At(e.to)) IN IF BlocksIn(E, S, k0, k1) = {} THEN 0 ELSE k1 - k0 + 1
            ELSE Cardinality({t \in DOMAIN S.v : NotAfter(At(e.from), t) /\ NotAfter(t, At(e.to))})
   IN W > 0 => e.st = 0 /\ e.n >= W
(* First and last time of a series, said of its first and of its last block.  Of a regular series it is that of   *)
(* the first (last) valid value when the block carries values only; with quality or notes other slots may count,  *)
(* but no valid value is left out.  An irregular series has what was stored, at whatever time, missing or not.    *)
First2(V) == CHOOSE t \in V : \A u \in V : NotAfter(t, u)
Last2(V) == CHOOSE t \in V : \A u \in V : NotAfter(u, t)
Bare(a) == a.qw = 0 /\ a.iw = 0 /\ ~a.cn
TsRange == Is("tsrange") /\ Same /\ (e.full = 1 =>
   LET D == DOMAIN S.b  V == ValidSlots(S)
       blk(k) == IF Regular(E) THEN BlockOfSlot(E, k) ELSE BlockAt(E, k)
   IN IF D = {} THEN e.st # 0
      ELSE
        /\ (\E k \in V : blk(k) = MinOf(D)) => e.st = 0 /\ (IF ~Regular(E) THEN e.s = First2(DOMAIN S.v)
              ELSE LET k == Slot(E, e.s) IN IF Bare(S.b[MinOf(D)]) THEN k = MinOf(V) ELSE k <= MinOf(V) /\ BlockOfSlot(E, k) = MinOf(D))
        /\ (\E k \in V : blk(k) = MaxOf(D)) => e.st = 0 /\ (IF ~Regular(E) THEN e.x = Last2(DOMAIN S.v)
              ELSE LET k == Slot(E, e.x) IN IF Bare(S.b[MaxOf(D)]) THEN k = MaxOf(V) ELSE k >= MaxOf(V) /\ BlockOfSlot(E, k) = MaxOf(D)))
TsInfo == Is("tsinfo") /\ Same /\ IF BlockNamed # {} THEN e.st = 0 /\ \E b \in BlockNamed : e.units = S.b[b].u /\ e.tt = S.b[b].tt ELSE e.st # 0

(* ------------------------- the records behind it ------------------------- *)
RecType(key, a) == (IF Regular(Parts(key)[5]) THEN 100 ELSE 110) + (IF a.dbl THEN 5 ELSE 0) + (IF a.dn > 0 THEN 2 ELSE 0)
DName(kind, b) == DPart(b)
Records(file) == UNION {{[p |-> <<key, DPart(b)>>, t |-> RecType(key, file[key].b[b])] : b \in DOMAIN file[key].b} : key \in DOMAIN file}
Cat == Is("cat") /\ Same /\ e.st = Len(e.l) /\
   {[p |-> <<KeyOf[e.l[i].p], PartsOf[e.l[i].p][4]>>, t |-> e.l[i].t] : i \in DOMAIN e.l} = Records(All) /\ e.st = Cardinality(Records(All))
   (* a sorted catalogue lists the blocks of a series (spelled alike) in time, and everything by A, B and C parts *)
   /\ (IF e.sorted = 0 THEN TRUE ELSE
        LET key(i) == KeyOf[e.l[i].p]
            blk(i) == CHOOSE b \in DOMAIN All[key(i)].b : DPart(b) = PartsOf[e.l[i].p][4]
            le(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[3] <= b[3]
        IN \A i, j \in DOMAIN e.l : i < j => le(e.r[i], e.r[j]) /\ (key(i) = key(j) /\ (\A m \in {1, 2, 3, 5, 6} : e.r[i][m] = e.r[j][m]) => blk(i) < blk(j)))
Del == Is("del") /\
   IF BlockNamed = {} THEN e.st = -1 /\ Same
   ELSE e.st = 0 /\ LET b == CHOOSE x \in BlockNamed : TRUE IN
        Upd([b |-> Without(S.b, {b}), v |-> [k \in {x \in DOMAIN S.v : (IF Regular(E) THEN BlockOfSlot(E, x) ELSE BlockAt(E, x)) # b} |-> S.v[k]]])
(* copying a file brings every block of the first into the second *)
Over(X, Y, key) ==
  LET A == X[key]  B == IF key \in DOMAIN Y THEN Y[key] ELSE EmptySeries  EE == Parts(key)[5]
      blk(k) == IF Regular(EE) THEN BlockOfSlot(EE, k) ELSE BlockAt(EE, k)
  IN [b |-> A.b @@ B.b, v |-> A.v @@ Restrict(B.v, {k \in DOMAIN B.v : blk(k) \notin DOMAIN A.b})]
CpyFile == Is("cpyfile") /\ e.st = 0
   /\ F' = [F EXCEPT ![H[e.g]] = [key \in DOMAIN All \cup DOMAIN F[H[e.g]] |-> IF key \in DOMAIN All THEN Over(All, F[H[e.g]], key) ELSE F[H[e.g]][key]]] /\ UNCHANGED H

Next == Reset \/ Open \/ Close \/ Setting \/ Squeeze \/ Zcheck \/ TsPut \/ IrrPut \/ TsGet \/ TsSize \/ TsRange \/ TsInfo \/ Cat \/ Del \/ CpyFile
Spec == Init /\ [][Next]_vars
(* every entry belongs to a block that is there *)
SeriesOk(key, T) == LET EE == Parts(key)[5] IN
   /\ \A k \in DOMAIN T.v : (IF Regular(EE) THEN BlockOfSlot(EE, k) ELSE BlockAt(EE, k)) \in DOMAIN T.b
   /\ \A b \in DOMAIN T.b : b = BlockOfDay(BlockKind(EE), b)
Inv == \A f \in DOMAIN F : \A key \in DOMAIN F[f] : SeriesOk(key, F[f][key])
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, N>>) /\ TLCGet("stats").diameter - 1 = N
=============================================================================
