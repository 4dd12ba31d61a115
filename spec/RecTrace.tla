------------------------------ MODULE RecTrace ------------------------------
(* Checks a recorded run of the real library against RecData.                 *)
EXTENDS RecData, PathText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Flds == {"p", "q"}
Texts == UNION {{Trace[i][f] : f \in Flds \cap DOMAIN Trace[i]} : i \in 1..N}
Canon == TLCEval([s \in Texts |-> Upper(s)])
(* the location record which goes with a pathname *)
LocOf == TLCEval([s \in {t \in Texts : WellFormed(t)} |-> LET q == Parts(s) IN "/" \o q[1] \o "/" \o q[2] \o "/Location Info////"])
LocKey == TLCEval([s \in DOMAIN LocOf |-> Upper(LocOf[s])])

VARIABLES l, F, H
vars == <<l, F, H>>
e == Trace[l]
S == F[H[e.h]]
P == Canon[e.p]
Q == Canon[e.q]
Init == l = 1 /\ F = << >> /\ H = << >>
Is(x) == l <= N /\ e.e = x /\ l' = l + 1
Same == UNCHANGED <<F, H>>
Upd(T) == F' = [F EXCEPT ![H[e.h]] = T] /\ UNCHANGED H
Has(f) == f \in DOMAIN e

Reset == Is("reset") /\ F' = << >> /\ H' = << >>
Open == Is("open") /\ e.st = 0 /\ H' = Plus(H, e.h, e.f) /\ F' = (IF e.f \in DOMAIN F THEN F ELSE Plus(F, e.f, << >>))
Close == Is("close") /\ e.st = 0 /\ H' = Minus(H, {e.h}) /\ UNCHANGED F
Setting == (Is("note") \/ Is("zset") \/ Is("fset")) /\ Same

(* what the record level says about these records *)
Chk == Is("chk") /\ Same /\ e.st = IF P \in DOMAIN S THEN 0 ELSE -1
Type == Is("type") /\ Same /\ (P \in DOMAIN S => e.st = S[P].ty)
Del == Is("del") /\ (IF P \in DOMAIN S THEN e.st = 0 ELSE e.st = -1) /\ Upd(Delete(S, P))
Cnt == Is("cnt") /\ Same /\ e.st = Cardinality(DOMAIN S)
Basics == Is("basics") /\ Same /\ IF P \in DOMAIN S THEN e.st = 0 /\ e.ty = S[P].ty /\ e.ver \in S[P].lo..S[P].hi ELSE e.st # 0
Cat == Is("cat") /\ Same /\ e.st = Len(e.l) /\ e.st = Cardinality(DOMAIN S)
       /\ {e.l[i] : i \in DOMAIN e.l} = {[p |-> S[x].d, t |-> S[x].ty] : x \in DOMAIN S}
Zcheck == Is("zcheck") /\ Same /\ e.a = 0 /\ e.b = 0 /\ e.c = 0 /\ e.st = 0
Squeeze == Is("squeeze") /\ Same /\ e.st = 0
Dup == Is("dup") /\ IF P \notin DOMAIN S THEN e.st < 0 /\ Same
       ELSE IF Allowed(S, Q, S[P].ty) THEN e.st = 0 /\ Upd(Write(S, Q, S[P].k, S[P].ty, S[P].c, e.q)) ELSE e.st < 0 /\ Same
Ren == Is("ren") /\ IF P \notin DOMAIN S THEN e.st = -1 /\ Same
       ELSE e.st = 0 /\ Upd(Plus(Minus(S, {P}), Q, [S[P] EXCEPT !.d = e.q]))

(* ------------------------------ paired data ------------------------------ *)
Pairs(d, f, dbl) == [i \in 1..Len(d) |-> IF dbl = 1 THEN <<d[i], f[i]>> ELSE <<f[i], f[i]>>]
Whole == e.via = 1 \/ Entire(e.no, e.nc, e.sc, e.ec, e.so, e.eo)
NewSz == IF e.via = 1 \/ e.flag \in {2, 12} THEN 2 ELSE IF e.flag \in {1, 11} THEN 1 ELSE IF e.dbl = 1 THEN 2 ELSE 1
Src == IF e.via = 1 THEN 1 ELSE e.dbl
Prec == IF e.via = 1 THEN <<-1, -1>> ELSE IF e.xp < 0 THEN <<-1, -1>> ELSE <<e.xp, e.yp>>
NewPd == [sz |-> NewSz, no |-> e.no, nc |-> e.nc, o |-> Cells(Pairs(e.o, e.of, Src), NewSz),
          v |-> IF e.via = 0 /\ e.flag > 5 THEN [i \in 1..(e.no * e.nc) |-> Zero] ELSE Cells(Pairs(e.v, e.vf, Src), NewSz),
          lab |-> e.lab, m |-> <<e.ui, e.ti, e.ud, e.td, e.tz>>, x |-> IF e.via = 1 THEN 1 ELSE e.xaxis, pr |-> Prec, uh |-> IF e.via = 1 THEN "" ELSE e.uh]
PdStore == Is("pdput") /\ IF Whole THEN e.st = 0 /\ Upd(PdPut(S, P, NewPd, e.p))
           ELSE IF Is1(S, P, "pd") THEN e.st = 0 /\ Upd(PdPatch(S, P, Part(e.so, e.eo, S[P].c.no), Part(e.sc, e.ec, S[P].c.nc), Pairs(e.v, e.vf, e.dbl), e.lab))
           ELSE e.st < 0 /\ Same
Show(s, z) == [i \in 1..Len(s) |-> s[i][IF z = 2 THEN 1 ELSE 2]]
PdRead == Is("pdget") /\ Same /\ IF ~Is1(S, P, "pd") THEN e.st # 0
  ELSE LET c == S[P].c
           R == IF e.via = 1 THEN 1..c.no ELSE Part(e.so, e.eo, c.no)
           J == IF e.via = 1 THEN 1..c.nc ELSE Part(e.sc, e.ec, c.nc)
           z == IF e.via = 1 THEN 2 ELSE IF e.dbl = 0 THEN c.sz ELSE e.dbl
       IN /\ e.st = 0 /\ e.no = c.no /\ e.nc = c.nc /\ e.nos = Cardinality(R) /\ e.ncs = Cardinality(J) /\ e.sz = z
          /\ e.o = Show(Sub(c.o, R), z) /\ e.v = Show(Block(c, R, J), z)
          /\ e.lab = (IF c.lab = << >> THEN << >> ELSE Sub(c.lab, J))
          /\ <<e.ui, e.ti, e.ud, e.td, e.tz>> = c.m
          /\ (Has("same") => e.same = 1)
          /\ (Has("xaxis") => e.xaxis = c.x /\ <<e.xp, e.yp>> = c.pr /\ e.disk = c.sz)
          \* a partial read does not read the user header
          /\ (Has("uh") => e.uh = IF e.sc > 1 \/ e.so > 1 \/ e.eo # 0 \/ e.ec # 0 THEN "" ELSE c.uh)

(* -------------------------------- text ----------------------------------- *)
TxType == IF e.e = "txput" /\ e.via = 0 /\ e.cols > 1 THEN 310 ELSE 300
(* ex: what the record looks like in a text file, if that is defined *)
TxC == IF e.via = 1 THEN [x |-> e.x, y |-> "0", z |-> "0", rows |-> 0, cols |-> 0, uh |-> "", xl |-> e.xl, ex |-> e.ex]
       ELSE [x |-> e.x, y |-> e.y, z |-> e.z, rows |-> e.rows, cols |-> e.cols, uh |-> e.uh, xl |-> e.xl, ex |-> e.ex]
TxStore == Is("txput") /\ IF e.empty = 0 /\ Allowed(S, P, TxType) THEN e.st = 0 /\ Upd(Put(S, P, "tx", TxType, TxC, e.p)) ELSE e.st < 0 /\ Same
IsTx == Is1(S, P, "tx")
TxRead == Is("txget") /\ Same /\ IF ~IsTx THEN e.st # 0
  ELSE LET c == S[P].c IN IF e.via = 0 THEN e.st = 0 /\ e.x = c.x /\ e.y = c.y /\ e.z = c.z /\ e.rows = c.rows /\ e.cols = c.cols /\ e.uh = c.uh /\ e.ty = S[P].ty
       ELSE IF c.xl \in 0..e.cap THEN e.st = 0 /\ e.x = c.x ELSE (e.st = 0 => c.xl < 0 \/ e.x = c.x) /\ e.len <= e.cap
(* a text file becomes a list with one row for each of its lines *)
TxImport == Is("tximp") /\ IF e.miss = 0 /\ e.x # "0" /\ Allowed(S, P, 300)
              THEN e.st = 0 /\ Upd(Put(S, P, "tx", 300, [x |-> "0", y |-> e.y, z |-> "0", rows |-> e.rows, cols |-> 1, uh |-> "", xl |-> 0, ex |-> e.x], e.p))
              ELSE e.st < 0 /\ Same
TxExport == Is("txexp") /\ Same /\ IF IsTx /\ e.bad = 0 THEN e.st = 0 /\ e.made = 1 /\ (S[P].c.ex # "?" => e.x = S[P].c.ex)
            ELSE e.st # 0 /\ e.made = 0

(* ------------------- arrays, grids, TINs, locations ---------------------- *)
ArC == [i |-> e.i, f |-> e.f, d |-> e.d, uh |-> e.uh]
ArStore == Is("arput") /\ IF Allowed(S, P, 90) THEN e.st = 0 /\ Upd(Put(S, P, "ar", 90, ArC, e.p)) ELSE e.st < 0 /\ Same
ArRead == Is("arget") /\ Same /\ IF ~Is1(S, P, "ar") THEN e.st # 0
          ELSE e.st = 0 /\ e.i = S[P].c.i /\ e.f = S[P].c.f /\ e.d = S[P].c.d /\ (Has("uh") => e.uh = S[P].c.uh)
GdC == [g |-> <<e.hd, e.fl, e.u, e.src, e.srs, e.def, e.tz>>, t |-> <<e.mm, e.rt, e.rn>>, d |-> e.d, comp |-> IF e.via = 1 THEN 26 ELSE e.comp]
GdStore == Is("gdput") /\ IF Allowed(S, P, e.ty) /\ GdC.comp \in {1, 26} THEN e.st = 0 /\ Upd(Put(S, P, "gd", e.ty, GdC, e.p)) ELSE e.st < 0 /\ Same
GdRead == Is("gdget") /\ Same /\ IF ~Is1(S, P, "gd") THEN e.st # 0
          ELSE LET c == S[P].c IN e.st = 0 /\ <<e.hd, e.fl, e.u, e.src, e.srs, e.def, e.tz>> = c.g /\ (e.stats = 1 => <<e.mm, e.rt, e.rn>> = c.t)
               /\ (e.data = 1 => e.d = c.d /\ e.stats = 1) /\ (Has("comp") => e.comp = c.comp)
TiM == <<e.hd, e.fl, e.a, e.b, e.c, e.u, e.tt, e.tz>>
TiD == <<e.x, e.y, e.v, e.pt, e.pc, e.ct, e.lb>>
TiStore == Is("tinput") /\ IF Allowed(S, P, 450) THEN e.st = 0 /\ Upd(Put(S, P, "ti", 450, [m |-> TiM, d |-> TiD], e.p)) ELSE e.st < 0 /\ Same
TiRead == Is("tinget") /\ Same /\ IF ~Is1(S, P, "ti") THEN e.st # 0
          ELSE e.st = 0 /\ TiM = S[P].c.m /\ (e.data = 1 => TiD = S[P].c.d)
LcC == <<e.xyz, e.k, e.tz, e.sup>>
LK == LocKey[e.p]
LcStore == Is("lcput") /\ e.st = 0
           /\ IF e.any = 1 /\ (e.rep = 1 \/ LK \notin DOMAIN S) THEN Upd(Put(S, LK, "lc", 20, LcC, LocOf[e.p])) ELSE Same
LcRead == Is("lcget") /\ Same /\ IF LK \in DOMAIN S THEN e.st = 0 /\ LcC = S[LK].c ELSE e.st # 0
LcDel == Is("lcdel") /\ e.st = (IF LK \in DOMAIN S THEN 0 ELSE -1) /\ Upd(Delete(S, LK))

Next == Reset \/ Open \/ Close \/ Setting \/ Chk \/ Type \/ Del \/ Cnt \/ Basics \/ Cat \/ Zcheck \/ Squeeze \/ Dup \/ Ren
        \/ PdStore \/ PdRead \/ TxStore \/ TxRead \/ TxImport \/ TxExport \/ ArStore \/ ArRead \/ GdStore \/ GdRead \/ TiStore \/ TiRead \/ LcStore \/ LcRead \/ LcDel
Spec == Init /\ [][Next]_vars
Inv == \A f \in DOMAIN F : FileOk(F[f])
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, N>>) /\ TLCGet("stats").diameter - 1 = N
=============================================================================
