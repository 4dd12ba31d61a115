------------------------------ MODULE FnTrace ------------------------------
(* Checks recorded results of the pure functions against Times.               *)
EXTENDS Times, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLE l
e == Trace[l]
Init == l = 1
Is(x) == l <= N /\ e.e = x /\ l' = l + 1
Good == e.over = 0 /\ e.term = 1      \* nothing written outside the buffer, and a terminated text

Ymd == Is("f_ymd") /\ LET ym == e.y * 12 + e.m - 1  j == DayOf(ym \div 12, (ym % 12) + 1, 1) + e.d - 1  c == Civil(j) IN j >= DayOf(5, 1, 1) =>
  e.j = j /\ e.y2 = c.y /\ e.m2 = c.m /\ e.d2 = c.d /\ e.leap = (IF Leap(e.y) THEN 1 ELSE 0) /\ (j >= 0 => e.dow = Weekday(j) + 1)
Date == Is("f_date") /\ Good /\ LET c == Civil(e.j)  t == DateText(e.style, c.y, c.m, c.d) IN
  /\ e.t = Fit(t, e.size) /\ e.st = Len(e.t)
  /\ e.size > Len(t) /\ FourDigits(e.style) /\ c.y \in 1000..9999 =>
       e.st2 = 0 /\ e.y = c.y /\ e.m = c.m /\ (IF HasDay(e.style) THEN e.d = c.d /\ e.back = e.j ELSE e.d = 0 /\ e.back = DayOf(c.y, c.m, 1))
Parse == Is("f_parse") /\ IF e.form = 0 THEN e.st # 0 /\ e.j = NoDate
  ELSE Upper(e.t) = ParseText(e.form, e.y, e.m, e.d) /\ e.st = 0 /\ e.m2 = e.m
       /\ e.y2 = (IF e.form = 12 THEN e.y % 100 ELSE e.y)
       /\ LET y == IF e.form = 12 THEN 2000 + (e.y % 100) ELSE e.y IN
          IF e.form \in {10, 13, 14} THEN e.d2 = 0 /\ e.j = DayOf(y, e.m, 1) ELSE e.d2 = e.d /\ e.j = DayOf(y, e.m, e.d)
Time == Is("f_time") /\ e.over = 0 /\
  LET need == <<5, 6, 9, 13>>[e.style + 1] IN
  e.s \in 0..DaySecs /\ e.size >= need => e.term = 1 /\ e.t = TimeText(e.s, e.ms, e.style) /\ e.back = (IF e.style < 2 THEN e.s - (e.s % 60) ELSE e.s)
TSec == Is("f_tsec") /\ e.t = TimeForm(e.form, e.h, e.m, e.s) /\ e.v = e.h * 3600 + e.m * 60 + (IF e.form \in {3, 6, 7} THEN e.s ELSE 0)
IncT == Is("f_inc") /\ LET t == Norm(e.j, e.s) IN Movable(e.E, t) =>
  /\ e.st = 0 /\ <<e.j2, e.s2>> = Inc(e.E, t, e.n)
  /\ (e.E \in MonthBased => ~AtEnd(e.E, t) \/ t = Standard(e.E, t)) => e.np = e.n /\ e.np2 = -e.n
Np == Is("f_np") /\ PeriodsOk(e.E, Norm(e.j, e.s), Norm(e.j2, e.s2), e.np)
Off == Is("f_off") /\ LET t == Norm(e.j, e.s) IN Movable(e.E, t) =>
  /\ e.o = OffsetOf(e.E, t) /\ e.o2 = e.o /\ <<e.js, e.ss>> = Standard(e.E, t)
  /\ e.st = 0 /\ <<e.ja, e.sa>> = (IF AtEnd(e.E, t) THEN Standard(e.E, t) ELSE t)
Cln == Is("f_clean") /\ IF e.j = NoDate THEN e.st = 0 /\ e.j2 = e.j /\ e.t2 = e.t
  ELSE IF e.j = 0 /\ e.t = 0 THEN e.st = 0 /\ e.j2 = NoDate
  ELSE e.st = 1 /\ <<e.j2, e.t2>> = Clean(e.j, e.t, e.g)
Cmp == Is("f_cmp") /\ e.st = Compare(e.a, e.b)
DateTime == Is("f_dt") /\ LET x == Clean(e.base, e.t, e.g)  s == x[2] * e.g IN e.date = (LET c == Civil(x[1]) IN DateText(4, c.y, c.m, c.d)) /\ e.time = IF e.g = 1 THEN TimeText(s, 0, 2) ELSE TimeText(s, 0, 0)
EPart == Is("f_epart") /\ e.over = 0 /\ (e.E \notin {"", "~"} => LET x == Interval(e.ver, e.E) IN
  /\ IF ~x.ok THEN e.st = -1 /\ e.t = e.E ELSE e.st = (IF x.v > 0 THEN 0 ELSE 1) /\ e.v = x.v /\ e.term = 1 /\ e.t = x.t
  /\ e.gi = IF x.ok /\ Len(e.E) > 3 THEN x.v ELSE 0)
Sec2E == Is("f_sec2e") /\ e.over = 0 /\ LET M == {i \in 1..Len(NamesOf(e.ver)) : SecondsAt(e.ver, i) = e.v} IN IF M = {} THEN e.st = -1 ELSE e.st = 0 /\ \E i \in M : e.t = NamesOf(e.ver)[i]
Enum == Is("f_enum") /\ Len(e.l) = Len(NamesOf(e.ver)) /\ \A i \in DOMAIN e.l : e.l[i] = <<NamesOf(e.ver)[i], SecondsAt(e.ver, i)>>
FormP == Is("f_form") /\ Good /\ LET s == Form(e.parts) IN e.t = Fit(s, e.size) /\ e.st = Min2(Len(s) + 1, e.size)
GPart == Is("f_gpart") /\ Good /\ IF e.n \notin 1..6 THEN e.st = -1 /\ e.t = ""
  ELSE WellFormed(e.p) => LET x == Parts(e.p)[e.n] IN e.st = Len(x) /\ e.t = Fit(x, e.size)
SPart == Is("f_spart") /\ Good /\ IF e.n \notin 1..6 THEN e.st = -1 /\ e.t = e.p
  ELSE WellFormed(e.p) => LET x == SetPart(e.p, e.n, e.part) IN IF Len(x) < e.size THEN e.st = 0 /\ e.t = x ELSE e.st = -1 /\ e.t = e.p
Lens == Is("f_lens") /\ (WellFormed(e.p) => LET x == Parts(e.p)  q == SlashSeq(e.p, 1) IN e.st = 6 /\ e.st2 = 7 /\ (\A n \in 1..6 : e.len[n] = Len(x[n])) /\ \A n \in 1..7 : e.pos[n] = q[n])
ClPath == Is("f_clpath") /\ Good /\ LET s == CleanPath(e.p) IN e.t = Fit(s, e.size) /\ e.st = Len(e.t)
SCmp == Is("f_scmp") /\ (e.n <= Len(e.a) /\ e.n <= Len(e.b) => (e.st = 1) = (Upper(SubSeq(e.a, 1, e.n)) = Upper(SubSeq(e.b, 1, e.n))))
Seq2 == Is("f_seq") /\ LET f == Parts(e.p)[6] IN e.st = 1 /\ e.t = WithSequence(e.p, e.n) /\ e.coll2 = 1 /\ (e.coll = 1) = IsCollection(f)
        /\ (IsCollection(f) /\ FirstBar(f) = 9 => e.same = 1)

Next == Ymd \/ Date \/ Parse \/ Time \/ TSec \/ IncT \/ Np \/ Off \/ Cln \/ Cmp \/ DateTime \/ EPart \/ Sec2E \/ Enum \/ FormP \/ GPart \/ SPart \/ Lens \/ ClPath \/ SCmp \/ Seq2 \/ (Is("reset") /\ TRUE)
Spec == Init /\ [][Next]_l
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, N>>) /\ TLCGet("stats").diameter - 1 = N
=============================================================================
