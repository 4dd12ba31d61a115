------------------------------ MODULE TimesMC ------------------------------
(* The calendar built up day by day, and what must follow from it: the closed *)
(* forms of Calendar and the interval arithmetic of Times agree with it.      *)
EXTENDS Times, Json
CONSTANTS FirstYear, LastYear, Es
VARIABLES n, c, w, op
vars == <<n, c, w, op>>
Init == n = DayOf(FirstYear, 1, 1) /\ c = [y |-> FirstYear, m |-> 1, d |-> 1] /\ w = DayOf(FirstYear, 1, 1) % 7 /\ op = [o |-> "first"]
Succ(x) == IF x.d < MonthLen(x.y, x.m) THEN [x EXCEPT !.d = @ + 1] ELSE IF x.m < 12 THEN [y |-> x.y, m |-> x.m + 1, d |-> 1] ELSE [y |-> x.y + 1, m |-> 1, d |-> 1]
Next == c.y <= LastYear /\ n' = n + 1 /\ c' = Succ(c) /\ w' = (w + 1) % 7 /\ op' = [o |-> "day"]
Spec == Init /\ [][Next]_vars
Closed == DayOf(c.y, c.m, c.d) = n /\ Civil(n) = c /\ Weekday(n) = w
(* arithmetic, at the end and in the middle of each day *)
Ts == {<<n, DaySecs>>, <<n, 30600>>}
Laws == \A E \in Es : \A t \in Ts : Movable(E, t) =>
   LET s == IF AtEnd(E, t) THEN Standard(E, t) ELSE t IN
   /\ Inc(E, s, 0) = s
   /\ Slot(E, Inc(E, s, 1)) = Slot(E, s) + 1 /\ Before(s, Inc(E, s, 1))
   /\ \A k \in {-37, -12, -3, -1, 1, 2, 3, 24, 36} : Movable(E, Inc(E, s, k)) => Inc(E, Inc(E, s, k), -k) = s /\ Inc(E, Inc(E, s, k), 1) = Inc(E, s, k + 1)
   /\ Slot(E, Standard(E, t)) = Slot(E, t) /\ NotAfter(t, Standard(E, t)) /\ Standard(E, Standard(E, t)) = Standard(E, t)
Consecutive == \A E \in Es : \A t \in Ts : LET k == Slot(E, t) IN Before(SlotEnd(E, k - 1), t) /\ NotAfter(t, SlotEnd(E, k))
Inv == Closed /\ Laws /\ Consecutive
Emit == PrintT("@T " \o ToJson([n |-> n, y |-> c.y, m |-> c.m, d |-> c.d]))
=============================================================================
