------------------------------- MODULE TsData -------------------------------
(* Time series: how a series is cut into slots and block records, and what    *)
(* storing and retrieving does to it.                                         *)
(*                                                                            *)
(* A regular series is  [b |-> block -> attributes, v |-> slot -> entry];     *)
(* a slot is an ordinal of the interval, the block is named by its first day. *)
(* An irregular one is  [b |-> block -> attributes, v |-> instant -> entry].  *)
(* entry: [v |-> the value as double, f |-> the value as float ("M" missing), *)
(*         q, i, c |-> quality, integer note, character note ("" none)].      *)
(* A slot without entry is missing and carries nothing.                       *)
(* Attributes: [u units, tt type, tz time zone, dbl stored as double,         *)
(*              off seconds past the interval start, qw, iw, cn widths].      *)
EXTENDS Calendar, FiniteSets, TLC

(* ------------------------------ intervals -------------------------------- *)
SecStep ==
  [x \in {"1SECOND"} |-> 1] @@ ("2SECOND" :> 2) @@ ("3SECOND" :> 3) @@ ("4SECOND" :> 4) @@ ("5SECOND" :> 5) @@ ("6SECOND" :> 6)
  @@ ("10SECOND" :> 10) @@ ("15SECOND" :> 15) @@ ("20SECOND" :> 20) @@ ("30SECOND" :> 30)
  @@ ("1MINUTE" :> 60) @@ ("2MINUTE" :> 120) @@ ("3MINUTE" :> 180) @@ ("4MINUTE" :> 240) @@ ("5MINUTE" :> 300) @@ ("6MINUTE" :> 360)
  @@ ("10MINUTE" :> 600) @@ ("12MINUTE" :> 720) @@ ("15MINUTE" :> 900) @@ ("20MINUTE" :> 1200) @@ ("30MINUTE" :> 1800)
  @@ ("1HOUR" :> 3600) @@ ("2HOUR" :> 7200) @@ ("3HOUR" :> 10800) @@ ("4HOUR" :> 14400) @@ ("6HOUR" :> 21600) @@ ("8HOUR" :> 28800) @@ ("12HOUR" :> 43200)
DayBased == {"1DAY", "1WEEK", "TRI-MONTH", "SEMI-MONTH", "1MONTH", "1YEAR"}
Regular(E) == E \in DOMAIN SecStep \cup DayBased
IrrBlocks == [x \in {"IR-DAY"} |-> "day"] @@ ("IR-MONTH" :> "month") @@ ("IR-YEAR" :> "year") @@ ("IR-DECADE" :> "decade") @@ ("IR-CENTURY" :> "century")
Irregular(E) == E \in DOMAIN IrrBlocks

(* ordinal of the slot an instant falls in, and the instant a slot ends (its standard time) *)
Pivot == 36525        \* keeps the ordinals of second intervals within 32 bits
Ceil(a, b) == (a + b - 1) \div b
Ym(day) == LET c == Civil(day) IN c.y * 12 + c.m - 1
MonthEnd(ym) == LET y == ym \div 12  m == (ym % 12) + 1 IN DayOf(y, m, MonthLen(y, m))
Slot(E, t) ==
  IF E \in DOMAIN SecStep THEN (t[1] - Pivot) * (DaySecs \div SecStep[E]) + Ceil(t[2], SecStep[E])
  ELSE LET c == Civil(t[1]) IN
       CASE E = "1DAY" -> t[1]
         [] E = "1WEEK" -> t[1] \div 7
         [] E = "TRI-MONTH" -> Ym(t[1]) * 3 + (IF c.d <= 10 THEN 0 ELSE IF c.d <= 20 THEN 1 ELSE 2)
         [] E = "SEMI-MONTH" -> Ym(t[1]) * 2 + (IF c.d <= 15 THEN 0 ELSE 1)
         [] E = "1MONTH" -> Ym(t[1])
         [] E = "1YEAR" -> c.y
SlotEnd(E, k) ==
  IF E \in DOMAIN SecStep
  THEN LET I == SecStep[E]  n == DaySecs \div I  d == (k - 1) \div n IN <<d + Pivot, (k - d * n) * I>>
  ELSE LET Day(ym, d) == DayOf(ym \div 12, (ym % 12) + 1, d) IN
       CASE E = "1DAY" -> <<k, DaySecs>>
         [] E = "1WEEK" -> <<k * 7 + 6, DaySecs>>
         [] E = "TRI-MONTH" -> <<CASE k % 3 = 0 -> Day(k \div 3, 10) [] k % 3 = 1 -> Day(k \div 3, 20) [] OTHER -> MonthEnd(k \div 3), DaySecs>>
         [] E = "SEMI-MONTH" -> <<IF k % 2 = 0 THEN Day(k \div 2, 15) ELSE MonthEnd(k \div 2), DaySecs>>
         [] E = "1MONTH" -> <<MonthEnd(k), DaySecs>>
         [] E = "1YEAR" -> <<DayOf(k, 12, 31), DaySecs>>
(* seconds past the beginning of the interval; 0 for the standard time *)
Offset(E, t) == LET k == Slot(E, t) IN
  IF t = SlotEnd(E, k) THEN 0
  ELSE LET s == SlotEnd(E, k - 1) IN (t[1] - s[1]) * DaySecs + t[2] - s[2]
SlotTime(E, k, off) == IF off = 0 THEN SlotEnd(E, k) ELSE Add(SlotEnd(E, k - 1), off)

(* blocks *)
BlockKind(E) ==
  IF E \in DOMAIN IrrBlocks THEN IrrBlocks[E]
  ELSE IF E \in DOMAIN SecStep THEN (IF SecStep[E] < 900 THEN "day" ELSE "month")
  ELSE IF E = "1DAY" THEN "year"
  ELSE IF E \in {"1WEEK", "TRI-MONTH", "SEMI-MONTH", "1MONTH"} THEN "decade" ELSE "century"
BlockOfDay(kind, day) ==
  LET c == Civil(day) IN
  CASE kind = "day" -> day
    [] kind = "month" -> DayOf(c.y, c.m, 1)
    [] kind = "year" -> DayOf(c.y, 1, 1)
    [] kind = "decade" -> DayOf(c.y - (c.y % 10), 1, 1)
    [] kind = "century" -> DayOf(c.y - (c.y % 100), 1, 1)
BlockAt(E, t) == BlockOfDay(BlockKind(E), t[1])
BlockOfSlot(E, k) == BlockAt(E, SlotEnd(E, k))
NextBlock(kind, b) ==
  LET c == Civil(b) IN
  CASE kind = "day" -> b + 1
    [] kind = "month" -> IF c.m = 12 THEN DayOf(c.y + 1, 1, 1) ELSE DayOf(c.y, c.m + 1, 1)
    [] kind = "year" -> DayOf(c.y + 1, 1, 1)
    [] kind = "decade" -> DayOf(c.y + 10, 1, 1)
    [] kind = "century" -> DayOf(c.y + 100, 1, 1)

(* -------------------------------- entries -------------------------------- *)
NoEntry == [v |-> "M", f |-> "M", q |-> "", i |-> "", c |-> ""]
EmptySeries == [b |-> << >>, v |-> << >>]
EntryOf(S, k) == IF k \in DOMAIN S.v THEN S.v[k] ELSE NoEntry
Restrict(f, K) == [x \in DOMAIN f \cap K |-> f[x]]
Without(f, K) == [x \in DOMAIN f \ K |-> f[x]]
MinOf(K) == CHOOSE x \in K : \A y \in K : x <= y
MaxOf(K) == CHOOSE x \in K : \A y \in K : x >= y

(* ---------------------------- storing, regular --------------------------- *)
(* One block.  old: its attributes and entries (or not there), W: the slots   *)
(* given, g: their entries, a: the attributes of the call.                    *)
(*   flag 0, 2  replace          1  only where the file has missing           *)
(*        3  replace, but do not keep a block of nothing but missing          *)
(*        4  a missing value never replaces a valid one                       *)
(* inner: the days given reach beyond the block on both sides; then it is     *)
(* replaced as a whole, unless the call brings notes.                            *)
(* -> [b |-> {} or {attributes}, v |-> entries]                               *)
(* quality and integer notes are sequences of w elements, written "1;2;3"; "" where none was given *)
Elm(s, i) == SubSeq(s, i, i)
RECURSIVE Upto(_, _)
Upto(s, i) == IF i > Len(s) \/ Elm(s, i) = ";" THEN SubSeq(s, 1, i - 1) ELSE Upto(s, i + 1)
First(s) == Upto(s, 1)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE ";0" \o Zeros(n - 1)
RECURSIVE Heads(_, _)
Heads(s, n) == LET h == First(s) IN IF n = 1 \/ Len(h) = Len(s) THEN h ELSE h \o ";" \o Heads(SubSeq(s, Len(h) + 2, Len(s)), n - 1)
(* an item of w0 elements made one of w: the first ones, or more of them zero *)
Resize(s, w0, w) == IF w = 0 \/ s = "" THEN "" ELSE IF w < w0 THEN Heads(s, w) ELSE s \o Zeros(w - w0)
Plain(e) == e.v = "M" /\ e.q \in {"", "0"} /\ e.i \in {"", "0"} /\ e.c = ""
PutBlock(there, oa, oe0, W, g, a, flag, inner) ==
  LET whole == inner /\ flag \in {0, 2} /\ a.iw = 0 /\ ~a.cn
      oe == IF whole THEN << >> ELSE oe0
      old(k) == IF k \in DOMAIN oe THEN oe[k] ELSE NoEntry
      keep == [b |-> IF there THEN {oa} ELSE {}, v |-> oe0]
      (* a store with quality or integer notes sets their width for the whole block, one without ends them; character notes stay, *)
      (* unless integer notes come *)
      lay(e) == [e EXCEPT !.q = Resize(e.q, oa.qw, a.qw), !.i = Resize(e.i, oa.iw, a.iw), !.c = IF a.iw > 0 THEN "" ELSE e.c]
      over(k) == LET n == g[k]  o == old(k) IN [n EXCEPT !.c = IF a.cn THEN n.c ELSE IF a.iw > 0 THEN "" ELSE o.c]
      take(k) == CASE flag = 1 -> old(k).v = "M" [] flag = 4 -> g[k].v # "M" [] OTHER -> TRUE
      dbl == a.dbl \/ (there /\ oa.dbl)
      (* floats given to a block of doubles: the block stays double, but all of it goes through float *)
      thru == there /\ oa.dbl /\ ~a.dbl
      fit(e) == IF thru THEN [e EXCEPT !.v = e.f] ELSE e
      new == [k \in DOMAIN oe \cup W |-> fit(IF k \in W /\ take(k) THEN over(k) ELSE lay(old(k)))]
      ent == Restrict(new, {k \in DOMAIN new : new[k] # NoEntry})
      att == [a EXCEPT !.dbl = dbl, !.cn = a.cn \/ (there /\ oa.cn /\ ~whole /\ a.iw = 0)]
  IN IF flag = 1 /\ there /\ \A k \in W : old(k).v # "M" THEN keep
     ELSE IF flag = 4 /\ \A k \in W : g[k].v = "M" THEN keep
     ELSE IF flag = 3 /\ \A k \in DOMAIN new : Plain(new[k]) THEN [b |-> {}, v |-> << >>]
     ELSE [b |-> {att}, v |-> ent]

SlotsOfBlock(E, S, b) == {k \in DOMAIN S.v : BlockOfSlot(E, k) = b}
RECURSIVE PutBlocks(_, _, _, _, _, _)
PutBlocks(E, S, B, g, a, flag) ==
  IF B = {} THEN S
  ELSE LET b == MinOf(B)
           W == {k \in DOMAIN g : BlockOfSlot(E, k) = b}
           K == SlotsOfBlock(E, S, b)
           there == b \in DOMAIN S.b
           inner == SlotEnd(E, MinOf(DOMAIN g))[1] < b /\ SlotEnd(E, MaxOf(DOMAIN g))[1] > NextBlock(BlockKind(E), b)
           r == PutBlock(there, IF there THEN S.b[b] ELSE a, Restrict(S.v, K), W, g, a, flag, inner)
           T == [b |-> IF r.b = {} THEN Without(S.b, {b}) ELSE (b :> CHOOSE x \in r.b : TRUE) @@ S.b, v |-> r.v @@ Without(S.v, K)]
       IN PutBlocks(E, T, B \ {b}, g, a, flag)
Put(E, S, g, a, flag) == PutBlocks(E, S, {BlockOfSlot(E, k) : k \in DOMAIN g}, g, a, flag)

(* ------------------------------- retrieving ------------------------------ *)
BlocksIn(E, S, k0, k1) == {b \in DOMAIN S.b : b >= BlockOfSlot(E, k0) /\ b <= BlockOfSlot(E, k1)}
ValidSlots(S) == {k \in DOMAIN S.v : S.v[k].v # "M"}
Valid(S, k) == k \in DOMAIN S.v /\ S.v[k].v # "M"

(* --------------------------- storing, irregular -------------------------- *)
(* flag 0 merges, flag 1 replaces everything between the first and the last   *)
(* instant given.  Quality and integer notes of a block that is written are   *)
(* those of the call; character notes stay unless integer notes come.         *)
IrPut(E, S, g, a, flag) ==
  LET T == DOMAIN g
      first == CHOOSE t \in T : \A u \in T : NotAfter(t, u)
      last == CHOOSE t \in T : \A u \in T : NotAfter(u, t)
      gone == IF flag = 1 THEN {t \in DOMAIN S.v : NotAfter(first, t) /\ NotAfter(t, last)} ELSE {}
      B == {BlockAt(E, t) : t \in T}
      lay(e, o) == [e EXCEPT !.q = Resize(e.q, o.qw, a.qw), !.i = Resize(e.i, o.iw, a.iw), !.c = IF a.iw > 0 THEN "" ELSE e.c]
      keep == Without(S.v, gone \cup T)
      kept == [t \in DOMAIN keep |-> IF BlockAt(E, t) \in B THEN lay(keep[t], S.b[BlockAt(E, t)]) ELSE keep[t]]
      b2(b) == LET there == b \in DOMAIN S.b IN
               [a EXCEPT !.dbl = a.dbl \/ (there /\ S.b[b].dbl),
                         !.cn = a.cn \/ (there /\ a.iw = 0 /\ \E t \in DOMAIN kept : BlockAt(E, t) = b /\ S.b[b].cn)]
      v2 == g @@ kept
      left == {BlockAt(E, t) : t \in DOMAIN v2}
  IN [b |-> [b \in (DOMAIN S.b \cup B) \cap left |-> IF b \in B THEN b2(b) ELSE S.b[b]], v |-> v2]
=============================================================================
