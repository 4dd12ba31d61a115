------------------------------- MODULE Times -------------------------------
(* Dates and times as texts, and arithmetic on instants by standard intervals. *)
EXTENDS TsData, PathText, Naturals, Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
(* division rounded towards zero *)
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

(* -------------------------------- texts ---------------------------------- *)
LongMonth == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
Short(m) == SubSeq(LongMonth[m], 1, 3)
Year4(y) == IF y < 10000 THEN Pad4(y) ELSE Dec(y)
Year2(y) == Two(y % 100)
(* the date styles of yearMonthDayToDate: 0..9, +10 two digits of the year, +100 upper case; numeric styles are negative *)
NumericStyles == {-1, -2, -11, -12, -13, -101, -102, -111, -112}
DateText(style, y, m, d) ==
  IF style = -13 THEN Pad4(y) \o "-" \o Two(m) \o "-" \o Two(d)
  ELSE IF style < 0 THEN
    LET four == style < -100  s == IF four THEN style + 100 ELSE style
        sep == IF s \in {-2, -12} THEN "-" ELSE "/"
        yy == IF four THEN Pad4(y) ELSE Year2(y)
    IN IF s < -10 THEN Two(m) \o sep \o Two(d) \o sep \o yy ELSE Dec(m) \o sep \o Dec(d) \o sep \o yy
  ELSE
    LET k == style % 10  t == style % 100
        yy == IF t >= 10 /\ y < 10000 THEN Year2(y) ELSE Year4(y)
        s == CASE k = 0 -> LongMonth[m] \o " " \o Dec(d) \o ", " \o yy
               [] k = 1 -> Short(m) \o " " \o Dec(d) \o ", " \o yy
               [] k = 2 -> Dec(d) \o " " \o LongMonth[m] \o " " \o yy
               [] k = 3 -> LongMonth[m] \o " " \o yy
               [] k = 4 -> Two(d) \o Short(m) \o yy
               [] k = 5 -> Dec(d) \o Short(m) \o yy
               [] k = 6 -> Short(m) \o yy
               [] k = 7 -> Two(d) \o " " \o Short(m) \o " " \o yy
               [] k = 8 -> Dec(d) \o " " \o Short(m) \o " " \o yy
               [] k = 9 -> Short(m) \o " " \o yy
    IN IF style >= 100 THEN Upper(s) ELSE s
HasDay(style) == style < 0 \/ style % 10 \notin {3, 6, 9}
FourDigits(style) == style = -13 \/ style < -100 \/ (style >= 0 /\ style % 100 < 10)
(* forms of a date a user may write; the letter case does not matter *)
ParseText(form, y, m, d) ==
  CASE form = 1 -> DateText(104, y, m, d) [] form = 2 -> DateText(105, y, m, d) [] form = 3 -> DateText(102, y, m, d)
    [] form = 4 -> DateText(100, y, m, d) [] form = 5 -> DateText(101, y, m, d) [] form = 6 -> DateText(-101, y, m, d)
    [] form = 7 -> DateText(-111, y, m, d) [] form = 8 -> DateText(-102, y, m, d) [] form = 9 -> DateText(-13, y, m, d)
    [] form = 10 -> DateText(106, y, m, d) [] form = 11 -> DateText(107, y, m, d) [] form = 12 -> DateText(114, y, m, d)
    [] form = 13 -> DateText(103, y, m, d) [] form = 14 -> DateText(109, y, m, d)
NoDate == -2147483647
TimeText(s, ms, style) ==
  LET h == s \div 3600  m == (s \div 60) % 60  q == s % 60 IN
  CASE style = 0 -> Two(h) \o Two(m) [] style = 1 -> Two(h) \o ":" \o Two(m)
    [] style = 2 -> Two(h) \o ":" \o Two(m) \o ":" \o Two(q)
    [] style = 3 -> Two(h) \o ":" \o Two(m) \o ":" \o Two(q) \o "." \o SubSeq(Pad4(ms), 2, 4)
TimeForm(form, h, m, s) ==
  CASE form = 1 -> Two(h) \o Two(m) [] form = 2 -> Two(h) \o ":" \o Two(m) [] form = 3 -> Two(h) \o ":" \o Two(m) \o ":" \o Two(s)
    [] form = 4 -> Dec(h) \o Two(m) [] form = 5 -> Dec(h) \o ":" \o Two(m) [] form = 6 -> Dec(h) \o ":" \o Two(m) \o ":" \o Two(s)
    [] form = 7 -> Two(h) \o Two(m) \o Two(s)
(* what fits in a buffer of n characters *)
Fit(s, n) == SubSeq(s, 1, Min2(Len(s), n - 1))

(* ------------------------------ arithmetic ------------------------------- *)
(* near enough to the end of its interval to be taken as the end: a day early in the middle of a month, any time of the last day *)
AtEnd(E, t) == LET c == Civil(t[1]) IN
  CASE E = "TRI-MONTH" -> (IF c.m = 2 THEN c.d >= 28 ELSE c.d >= 30) \/ c.d \in {9, 10, 19, 20}
    [] E = "SEMI-MONTH" -> (IF c.m = 2 THEN c.d >= 28 ELSE c.d >= 30) \/ c.d \in {14, 15}
    [] E = "1MONTH" -> IF c.m = 2 THEN c.d >= 28 ELSE c.d >= 30
    [] E = "1YEAR" -> c.m = 12 /\ c.d = 31
    [] OTHER -> IF E \in DOMAIN SecStep THEN t[2] % SecStep[E] = 0 ELSE t = SlotEnd(E, Slot(E, t))
MonthBased == {"TRI-MONTH", "SEMI-MONTH", "1MONTH", "1YEAR"}
(* instants for which moving by months is well defined *)
Movable(E, t) == LET c == Civil(t[1]) IN E \notin MonthBased \/ AtEnd(E, t)
  \/ IF E = "1YEAR" THEN c.m # 2 \/ c.d # 29 ELSE c.d <= 27 /\ (E = "TRI-MONTH" => c.d % 10 \in 1..7) /\ (E = "SEMI-MONTH" => c.d # 13)
Inc(E, t, n) ==
  IF E \in DOMAIN SecStep THEN Norm(t[1], t[2] + n * SecStep[E])
  ELSE IF E = "1DAY" THEN <<t[1] + n, t[2]>>
  ELSE IF E = "1WEEK" THEN <<t[1] + 7 * n, t[2]>>
  ELSE IF AtEnd(E, t) THEN SlotEnd(E, Slot(E, t) + n)
  ELSE IF E = "1YEAR" THEN LET c == Civil(t[1]) IN <<DayOf(c.y + n, c.m, c.d), t[2]>>
  ELSE SlotTime(E, Slot(E, t) + n, Offset(E, t))
(* whole periods from t to u *)
FixedPeriods(E, t, u) ==
  LET D == u[1] - t[1]  S == u[2] - t[2]
      pos == D > 0 \/ (D = 0 /\ S >= 0)
      d == IF pos THEN D ELSE -D
      s == IF pos THEN S ELSE -S
      q == IF E \in DOMAIN SecStep THEN d * (DaySecs \div SecStep[E]) + s \div SecStep[E]
           ELSE (d + s \div DaySecs) \div (IF E = "1WEEK" THEN 7 ELSE 1)
  IN IF pos THEN q ELSE -q
Slots(E, t, u) == Slot(E, u) - Slot(E, t)
PeriodsOk(E, t, u, n) ==
  IF E \notin MonthBased THEN n = FixedPeriods(E, t, u)
  ELSE /\ n \in (Slots(E, t, u) - 1)..(Slots(E, t, u) + 1)
       /\ Movable(E, t) /\ Inc(E, t, Slots(E, t, u)) = u => n = Slots(E, t, u)
(* offset as kept in a record: seconds past the start; a year is counted without its leap day *)
OffsetOf(E, t) == IF AtEnd(E, t) THEN 0
  ELSE IF E \in DOMAIN SecStep THEN t[2] % SecStep[E]
  ELSE IF E = "1YEAR" THEN LET c == Civil(t[1]) IN (DayOf(2001, c.m, c.d) - DayOf(2001, 1, 1)) * DaySecs + t[2]
  ELSE Offset(E, t)
Standard(E, t) == IF E \in DOMAIN SecStep THEN <<t[1], Ceil(t[2], SecStep[E]) * SecStep[E]>> ELSE SlotEnd(E, Slot(E, t))
(* a count of units of g seconds brought into one day; 0 of day 0 is no time at all *)
PerDay(g) == IF g < 1 THEN 1440 ELSE DaySecs \div g
Clean(j, t, g) == LET n == PerDay(g) IN <<j + (t - 1) \div n, ((t - 1) % n) + 1>>
Instant(a) == LET x == Clean(a[1] + a[3], a[2], a[4]) IN <<x[1], x[2] * a[4]>>
Compare(a, b) == IF Instant(a) = Instant(b) THEN 0 ELSE IF Before(Instant(a), Instant(b)) THEN -1 ELSE 1

(* ------------------------------ intervals -------------------------------- *)
Names7 == <<"1Year", "1Month", "Semi-Month", "Tri-Month", "1Week", "1Day", "12Hour", "8Hour", "6Hour", "4Hour", "3Hour", "2Hour", "1Hour",
  "30Minute", "20Minute", "15Minute", "12Minute", "10Minute", "6Minute", "5Minute", "4Minute", "3Minute", "2Minute", "1Minute",
  "30Second", "20Second", "15Second", "10Second", "6Second", "5Second", "4Second", "3Second", "2Second", "1Second",
  "IR-Century", "IR-Decade", "IR-Year", "IR-Month", "IR-Day">>
Names6 == <<"1YEAR", "1MON", "SEMI-MONTH", "TRI-MONTH", "1WEEK", "1DAY", "12HOUR", "8HOUR", "6HOUR", "4HOUR", "3HOUR", "2HOUR", "1HOUR",
  "30MIN", "20MIN", "15MIN", "12MIN", "10MIN", "6MIN", "5MIN", "4MIN", "3MIN", "2MIN", "1MIN", "IR-CENTURY", "IR-DECADE", "IR-YEAR", "IR-MONTH", "IR-DAY">>
NamesOf(ver) == IF ver = 6 THEN Names6 ELSE Names7
Upper7 == [i \in 1..Len(Names7) |-> Upper(Names7[i])]
UpperOf(ver) == IF ver = 6 THEN Names6 ELSE Upper7
(* of the version 7 names *)
SecondsOf(u) == CASE u = "1YEAR" -> 31536000 [] u = "1MONTH" -> 2592000 [] u = "SEMI-MONTH" -> 1296000 [] u = "TRI-MONTH" -> 864000 [] u = "1WEEK" -> 604800
  [] u = "1DAY" -> 86400 [] u = "IR-CENTURY" -> -5 [] u = "IR-DECADE" -> -4 [] u = "IR-YEAR" -> -3 [] u = "IR-MONTH" -> -2 [] u = "IR-DAY" -> -1 [] OTHER -> SecStep[u]
Index7(ver, i) == IF ver = 6 /\ i > 24 THEN i + 10 ELSE i
SecondsAt(ver, i) == SecondsOf(Upper7[Index7(ver, i)])
Prefixes(u, n) == Len(u) > 0 /\ LET k == Min2(Len(u), Len(n)) IN SubSeq(u, 1, k) = SubSeq(n, 1, k)
(* the interval an E part names: the first one it agrees with as far as both go; 0 for none. A ~ makes it irregular *)
Named(ver, u) == LET M == {i \in 1..Len(NamesOf(ver)) : Prefixes(u, UpperOf(ver)[i])} IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j
PseudoBlock(ver, s) == IF s < 1800 THEN -1 ELSE IF s < (IF ver = 6 THEN 86400 ELSE 21600) THEN -2 ELSE IF s < 604800 THEN -3 ELSE IF s < 2592000 THEN -4 ELSE -5
Interval(ver, E) == LET u == Upper(E)  ps == Len(u) > 0 /\ Ch(u, 1) = "~"  i == Named(ver, IF ps THEN SubSeq(u, 2, Len(u)) ELSE u)
  IN [ok |-> i > 0, v |-> IF i = 0 THEN 0 ELSE IF ps THEN PseudoBlock(ver, SecondsAt(ver, i)) ELSE SecondsAt(ver, i),
      t |-> IF i = 0 THEN E ELSE IF ps THEN "~" \o NamesOf(ver)[i] ELSE NamesOf(ver)[i]]

(* ------------------------------- pathnames ------------------------------- *)
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s, 1) = " " THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = " " THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Join(p) == "/" \o p[1] \o "/" \o p[2] \o "/" \o p[3] \o "/" \o p[4] \o "/" \o p[5] \o "/" \o p[6] \o "/"
Form(p) == Join([n \in 1..6 |-> TrimL(TrimR(p[n]))])
SetPart(s, n, x) == Join([Parts(s) EXCEPT ![n] = x])
Junk == {"\\", "^", "`"}       \* stand for a control character, DEL and an 8 bit character in the driver
RECURSIVE CleanFrom(_, _, _)
CleanFrom(s, i, k) == IF i > Len(s) \/ k = 7 THEN "" ELSE IF Ch(s, i) \in Junk THEN CleanFrom(s, i + 1, k)
  ELSE Ch(s, i) \o CleanFrom(s, i + 1, IF Ch(s, i) = "/" THEN k + 1 ELSE k)
CleanPath(s) == CleanFrom(s, 1, 0)
(* collections: the F part begins "C:", then the sequence, then a bar *)
Bars(f) == {i \in 1..Len(f) : Ch(f, i) = "|"}
IsCollection(f) == Len(f) > 2 /\ Upper(SubSeq(f, 1, 2)) = "C:" /\ Bars(f) # {}
FirstBar(f) == CHOOSE i \in Bars(f) : \A j \in Bars(f) : i <= j
SeqText(n) == SubSeq("000000", 1, 6 - Len(Dec(n))) \o Dec(n)
WithSequence(s, n) == LET f == Parts(s)[6] IN SetPart(s, 6, "C:" \o SeqText(n) \o "|" \o IF IsCollection(f) THEN SubSeq(f, FirstBar(f) + 1, Len(f)) ELSE f)
=============================================================================
