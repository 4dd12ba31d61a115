----------------------------- MODULE DatumTrace -----------------------------
(* Checks a recorded run of the real library against Datum.  A file holds     *)
(* locations, series (values by day; a block is a year) and paired data.      *)
EXTENDS Datum, PathText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Texts == UNION {{Trace[i][f] : f \in {"p"} \cap DOMAIN Trace[i]} : i \in 1..N}
Canon == TLCEval([s \in Texts |-> Upper(s)])
LocKey == TLCEval([s \in {t \in Texts : WellFormed(t)} |-> LET q == Parts(s) IN Upper("/" \o q[1] \o "/" \o q[2] \o "/")])
VARIABLES l, F, H, G
vars == <<l, F, H, G>>
e == Trace[l]
S == F[H[e.h]]
P == Canon[e.p]
LK == LocKey[e.p]
Loc == IF LK \in DOMAIN S.loc THEN S.loc[LK] ELSE NoVdi
Empty == [loc |-> << >>, rec |-> << >>]
Plus(f, k, v) == (k :> v) @@ f
Minus(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == l = 1 /\ F = << >> /\ H = << >> /\ G = [want |-> None, ow |-> FALSE]
Is(x) == l <= N /\ e.e = x /\ l' = l + 1
Same == UNCHANGED <<F, H, G>>
Upd(T) == F' = [F EXCEPT ![H[e.h]] = T] /\ UNCHANGED <<H, G>>
Reset == Is("reset") /\ F' = << >> /\ H' = << >> /\ G' = [want |-> None, ow |-> FALSE]
Open == Is("open") /\ e.st = 0 /\ H' = Plus(H, e.h, e.f) /\ F' = (IF e.f \in DOMAIN F THEN F ELSE Plus(F, e.f, Empty)) /\ UNCHANGED G
Close == Is("close") /\ e.st = 0 /\ H' = Minus(H, e.h) /\ UNCHANGED <<F, G>>
Note == Is("note") /\ Same
Zset == Is("zset") /\ G' = (IF e.p = "VDTM" THEN [G EXCEPT !.want = e.c] ELSE IF e.p = "VDOW" THEN [G EXCEPT !.ow = e.v # 0] ELSE G) /\ UNCHANGED <<F, H>>
Squeeze == Is("squeeze") /\ e.st = 0 /\ Same

(* what the caller said: g.vdi, g.hd the datum named in the header, g.vi and g.vd the datums named with the units *)
Cur(unitdatum) == IF unitdatum # "" THEN unitdatum ELSE IF e.g.hd # "" THEN e.g.hd ELSE G.want
Year(day) == IF day <= 0 THEN 0 ELSE 1   \* histories stay within 2000 and 2001
There == P \in DOMAIN S.rec
Idx(s) == DOMAIN s
NewLoc == LET v == VdiAfter(Loc, e.g.vdi, G.ow) IN IF v = NoVdi THEN S.loc ELSE Plus(S.loc, LK, v)

(* --------------------------------- series -------------------------------- *)
RecYears == IF There THEN S.rec[P].years ELSE {}
Touched == {y \in {0, 1} : y >= Year(e.days[1]) /\ y <= Year(e.days[Len(e.days)])}
TsFound == RecYears \cap Touched # {}
TsOk == Accepts(Loc, e.g.vdi, Cur(e.g.vd), TsFound, G.ow, e.g.ud)
TsStore ==
  /\ Is("vdput") /\ e.k # "pd" /\ e.kept = 1
  /\ IF ~TsOk THEN e.st # 0 /\ Same
     ELSE /\ e.st = 0
          /\ LET off == StoreOffset(Loc, e.g.vdi, Cur(e.g.vd), G.ow, e.g.ud)
                 old == IF There THEN S.rec[P].v ELSE << >>
                 given == [d \in {e.days[i] : i \in Idx(e.days)} |-> Native(e.v[CHOOSE i \in Idx(e.days) : e.days[i] = d], off)]
             IN Upd([loc |-> NewLoc, rec |-> Plus(S.rec, P, [k |-> e.k, u |-> e.g.ud, years |-> RecYears \cup {Year(e.days[i]) : i \in Idx(e.days)}, v |-> given @@ old])])
At(v, d) == IF d \in DOMAIN v THEN v[d] ELSE Miss
HeadOk == e.hd = G.want /\ e.hv.nat = Loc.nat /\ e.hv.u = Loc.u /\ Near(e.hv.o29, Loc.o29) /\ Near(e.hv.o88, Loc.o88) /\ e.hv.e29 = Loc.e29 /\ e.hv.e88 = Loc.e88
HeadFree == G.want = None \/ HeadOk
TsRead ==
  /\ Is("vdget") /\ e.k # "pd" /\ Same
  /\ LET yrs == {y \in RecYears : y >= Year(e.from) /\ y <= Year(e.to)}
         want == IF e.k = "irr" /\ There THEN {d \in DOMAIN S.rec[P].v : d >= e.from /\ d <= e.to} ELSE e.from..e.to
     IN IF yrs = {} \/ want = {} THEN e.st # 0 \/ Len(e.v) = 0
        ELSE IF ~Answers(Loc, G.want, S.rec[P].u) THEN e.st # 0
        ELSE LET off == ShownOffset(Loc, G.want, S.rec[P].u) IN
             /\ e.st = 0 /\ e.u = S.rec[P].u /\ HeadFree
             /\ Len(e.days) = Cardinality(want) /\ Len(e.v) = Len(e.days) /\ {e.days[i] : i \in Idx(e.days)} = want
             /\ \A i \in Idx(e.days) : Near(e.v[i], Shown(At(S.rec[P].v, e.days[i]), off))

(* ------------------------------- paired data ----------------------------- *)
(* which halves of the C part are elevations: 1 the ordinates, 2 the curves, 3 both *)
Axes == e.g.ax
OkAxis(on, datum, unit) == ~on \/ Accepts(Loc, e.g.vdi, Cur(datum), There, G.ow, unit)
OffAxis(on, datum, unit) == IF on THEN StoreOffset(Loc, e.g.vdi, Cur(datum), G.ow, unit) ELSE 0
IndOn == Axes \in {1, 3}
DepOn == Axes \in {2, 3}
PdOk == OkAxis(IndOn, e.g.vi, e.g.ui) /\ OkAxis(DepOn, e.g.vd, e.g.ud)
Whole == e.part = <<0, 0, 0, 0>>
Map(s, off) == [i \in Idx(s) |-> Native(s[i], off)]
First1(a) == IF a = 0 THEN 1 ELSE a
Last1(b, n) == IF b = 0 \/ b > n THEN n ELSE b
(* rows so..eo of curves sc..ec of a table, curve after curve *)
InPart(c, r, pt, no, nc) == c >= First1(pt[1]) /\ c <= Last1(pt[2], nc) /\ r >= First1(pt[3]) /\ r <= Last1(pt[4], no)
Rows(pt, no) == Last1(pt[4], no) - First1(pt[3]) + 1
PosIn(c, r, pt, no) == (c - First1(pt[1])) * Rows(pt, no) + (r - First1(pt[3]) + 1)
PdStore ==
  /\ Is("vdput") /\ e.k = "pd" /\ e.kept = 1
  /\ IF ~PdOk \/ (~Whole /\ ~There) THEN e.st # 0 /\ Same
     ELSE /\ e.st = 0
          /\ LET oi == OffAxis(IndOn, e.g.vi, e.g.ui)  od == OffAxis(DepOn, e.g.vd, e.g.ud)
                 new == IF Whole THEN [k |-> "pd", ax |-> Axes, no |-> Len(e.o), nc |-> e.nc, ui |-> e.g.ui, ud |-> e.g.ud, o |-> Map(e.o, oi), v |-> Map(e.v, od)]
                        ELSE LET c0 == S.rec[P] IN [c0 EXCEPT !.v = [i \in Idx(c0.v) |-> LET c == ((i - 1) \div c0.no) + 1  r == ((i - 1) % c0.no) + 1
                               IN IF InPart(c, r, e.part, c0.no, c0.nc) THEN Native(e.v[PosIn(c, r, e.part, c0.no)], od) ELSE c0.v[i]]]
             IN Upd([loc |-> NewLoc, rec |-> Plus(S.rec, P, new)])
PdRead ==
  /\ Is("vdget") /\ e.k = "pd" /\ Same
  /\ IF ~There THEN e.st # 0
     ELSE LET c == S.rec[P]  i1 == c.ax \in {1, 3}  d1 == c.ax \in {2, 3}
          IN IF (i1 /\ ~Answers(Loc, G.want, c.ui)) \/ (d1 /\ ~Answers(Loc, G.want, c.ud)) THEN e.st # 0
             ELSE LET oi == IF i1 THEN ShownOffset(Loc, G.want, c.ui) ELSE 0  od == IF d1 THEN ShownOffset(Loc, G.want, c.ud) ELSE 0
                      pt == e.part  r0 == First1(pt[3])  r1 == Last1(pt[4], c.no)  c0 == First1(pt[1])  c1 == Last1(pt[2], c.nc)
                  IN /\ e.st = 0 /\ e.ui = c.ui /\ e.u = c.ud /\ HeadFree
                     /\ Len(e.o) = r1 - r0 + 1 /\ \A i \in Idx(e.o) : Near(e.o[i], Shown(c.o[r0 + i - 1], oi))
                     /\ Len(e.v) = (r1 - r0 + 1) * (c1 - c0 + 1)
                     /\ \A i \in Idx(e.v) : LET cc == c0 + ((i - 1) \div (r1 - r0 + 1))  rr == r0 + ((i - 1) % (r1 - r0 + 1))
                                            IN Near(e.v[i], Shown(c.v[(cc - 1) * c.no + rr], od))
Code(nat) == IF nat = D88 THEN 1 ELSE IF nat = D29 THEN 2 ELSE 3
LocRead == Is("vdloc") /\ Same /\ IF LK \notin DOMAIN S.loc THEN e.st # 0
  ELSE LET v == S.loc[LK] IN e.st = 0 /\ e.vdi.nat = v.nat /\ e.vdi.u = v.u /\ Near(e.vdi.o29, v.o29) /\ Near(e.vdi.o88, v.o88) /\ e.vdi.e29 = v.e29 /\ e.vdi.e88 = v.e88
       /\ e.vd = Code(v.nat) /\ e.vu = (IF v.u = "ft" THEN 1 ELSE 2)
Crash == Is("crash") /\ FALSE
Next == Reset \/ Open \/ Close \/ Note \/ Zset \/ Squeeze \/ TsStore \/ TsRead \/ PdStore \/ PdRead \/ LocRead
Spec == Init /\ [][Next]_vars
Inv == TRUE
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, N>>) /\ TLCGet("stats").diameter - 1 = N
=============================================================================
