------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar and the time conventions of HEC-DSS.      *)
(* A day is counted from 31 December 1899 (1 January 1900 is day 1); an       *)
(* instant is <<day, second>> with second in 1..86400: midnight is the end of *)
(* a day ("2400"), never the beginning of one.                                *)
EXTENDS Naturals, Integers, Sequences

DaySecs == 86400
(* from the civil date, by 400 year eras beginning on 1 March *)
DayOf(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * ((m + 9) % 12) + 2) \div 5 + d - 1
  IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468 + 25568
Civil(n) ==
  LET z   == n - 25568 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - (153 * mp + 2) \div 5 + 1]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
Weekday(n) == n % 7     \* 0: Sunday

(* instants *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
NotAfter(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
(* <<d, s>> with any second, brought into 1..86400 *)
Norm(d, s) == <<d + (s - 1) \div DaySecs, ((s - 1) % DaySecs) + 1>>
Add(a, s) == Norm(a[1], a[2] + s)
At(y) == Norm(DayOf(y[1], y[2], y[3]), y[4])   \* y = <<year, month, day, seconds>>

MonthName == <<"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC">>
Digit(k) == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[k + 1]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit(n) ELSE Dec(n \div 10) \o Digit(n % 10)
Two(n) == Digit(n \div 10) \o Digit(n % 10)
Pad4(n) == IF n < 10 THEN "000" \o Dec(n) ELSE IF n < 100 THEN "00" \o Dec(n) ELSE IF n < 1000 THEN "0" \o Dec(n) ELSE Dec(n)
(* as in the date part of a pathname: 01JAN2000 *)
DPart(n) == LET c == Civil(n) IN Two(c.d) \o MonthName[c.m] \o Pad4(c.y)
=============================================================================
