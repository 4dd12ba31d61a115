------------------------------- MODULE Datum --------------------------------
(* Elevations and vertical datums.                                            *)
(*                                                                            *)
(* A location (A and B part) has at most one piece of vertical datum          *)
(* information (VDI): the native datum of the elevations stored there, and    *)
(* the offsets from it to NGVD-29 and NAVD-88.  Elevations are kept in the    *)
(* native datum; a caller may give them in another one and may ask for        *)
(* another one.  Values and offsets are thousandths; Undef: no offset known,  *)
(* Miss: no value.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Undef == -9999999
Miss == -99999999
D29 == "NGVD-29"
D88 == "NAVD-88"
None == "UNSET"
NoVdi == [nat |-> None, u |-> "", o29 |-> Undef, e29 |-> 0, o88 |-> Undef, e88 |-> 0]
Feet == {"ft", "FT", "feet", "FEET", "foot"}
Meters == {"m", "M", "meters", "METERS", "meter"}
Len1(u) == IF u \in Feet THEN "ft" ELSE IF u \in Meters THEN "m" ELSE ""
Conv(o, from, to) ==
  IF o = Undef THEN Undef
  ELSE CASE Len1(to) = "" -> Undef
         [] Len1(from) = Len1(to) -> o
         [] Len1(from) = "ft" /\ Len1(to) = "m" -> (o * 381 + 625) \div 1250
         [] Len1(from) = "m" /\ Len1(to) = "ft" -> (o * 1250 + 190) \div 381
         [] OTHER -> Undef
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == a = b \/ (a # Miss /\ b # Miss /\ Abs(a - b) <= 3)
(* the same offset, given in two units *)
SameOffset(d, du, f, fu, de, fe) == ((d = Undef) = (f = Undef)) /\ (d # Undef => Near(Conv(d, du, fu), f) /\ de = fe)
(* the offset from native to a datum *)
OffsetTo(vdi, datum) == IF datum = D88 THEN vdi.o88 ELSE IF datum = D29 THEN vdi.o29 ELSE IF datum = vdi.nat THEN 0 ELSE Undef

(* ------------------------------- storing --------------------------------- *)
(* f: the VDI of the location, d: the VDI given with the data, cur: the datum *)
(* the data are in, found: the record is already there, ow: the caller may    *)
(* replace the VDI of a location.                                             *)
Agree(f, d) == SameOffset(d.o88, d.u, f.o88, f.u, d.e88, f.e88) /\ SameOffset(d.o29, d.u, f.o29, f.u, d.e29, f.e29)
Compatible(f, d, found, ow) ==
  \/ ow
  \/ /\ d.nat = None \/ f.nat = d.nat \/ (f.nat = None /\ ~found)
     /\ d.nat = None \/ f.nat # d.nat \/ Agree(f, d)
Known(f, d, cur, ow) == cur \in {None, d.nat, D88, D29} \/ (d.nat = None /\ (cur = f.nat \/ f.nat = None \/ ow))
StoreOffset(f, d, cur, ow, unit) ==
  IF cur = d.nat /\ f.nat = None THEN 0
  ELSE LET t == IF d.nat # None \/ ow THEN d ELSE f
       IN IF cur = None \/ t.nat = None \/ cur = t.nat THEN 0 ELSE IF cur \in {D88, D29} THEN Conv(OffsetTo(t, cur), t.u, unit) ELSE Undef
Accepts(f, d, cur, found, ow, unit) ==
  /\ Compatible(f, d, found, ow)
  /\ Known(f, d, cur, ow)
  /\ StoreOffset(f, d, cur, ow, unit) # Undef
  /\ (f.nat = None /\ d.nat = None) \/ Len1(unit) # ""
Native(x, off) == IF x = Miss THEN Miss ELSE x - off
(* the VDI of the location afterwards *)
VdiAfter(f, d, ow) == IF d.nat # None /\ (f.nat = None \/ ow) THEN d ELSE f

(* ------------------------------ retrieving ------------------------------- *)
Answers(f, want, unit) ==
  \/ want = None
  \/ /\ f.nat # None
     /\ LET o == OffsetTo(f, want) IN o # Undef /\ (o = 0 \/ Conv(o, f.u, unit) # Undef)
ShownOffset(f, want, unit) == IF want = None \/ OffsetTo(f, want) = 0 THEN 0 ELSE Conv(OffsetTo(f, want), f.u, unit)
Shown(x, off) == IF x = Miss THEN Miss ELSE x + off
=============================================================================
