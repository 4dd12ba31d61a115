------------------------------- MODULE DatumMC ------------------------------
(* A location with two records, stored again and again with and without a     *)
(* VDI, in several datums.  Every transition is printed and replayed.         *)
EXTENDS Datum, Json
CONSTANTS Recs, Vdis, Curs, Owns, Show
VARIABLES loc, rec, said, op
vars == <<loc, rec, said, op>>
V(n, u, o29, e29, o88, e88) == [nat |-> n, u |-> u, o29 |-> o29, e29 |-> e29, o88 |-> o88, e88 |-> e88]
Info(k) == CASE k = "none" -> NoVdi
             [] k = "n88" -> V(D88, "ft", -1500, 0, 0, 0)
             [] k = "n88m" -> V(D88, "m", -457, 0, 0, 0)        \* the same in metres
             [] k = "n88b" -> V(D88, "ft", -1700, 0, 0, 0)      \* another offset
             [] k = "n88e" -> V(D88, "ft", -1500, 1, 0, 0)      \* only an estimate
             [] k = "n88x" -> V(D88, "ft", Undef, 0, 0, 0)      \* no offset to NGVD-29
             [] k = "n29" -> V(D29, "ft", 0, 0, 2250, 1)
             [] k = "loc" -> V("LOCAL", "ft", 500, 0, Undef, 0)
             [] k = "loc2" -> V("PENSACOLA", "m", 300, 0, 700, 0)
X == 100000
Absent == [there |-> FALSE, nat |-> 0]
Init == loc = "none" /\ rec = [r \in Recs |-> Absent] /\ said = [r \in Recs |-> None] /\ op = [o |-> "init"]
(* with permission to overwrite and no VDI the caller is taken at his word about the native datum: left out *)
Word(k, cur, ow) == ow /\ k = "none" /\ Info(loc).nat # None
Store(r, k, cur, ow) ==
  LET f == Info(loc)  d == Info(k)  ok == Accepts(f, d, cur, rec[r].there, ow, "ft")
      after == IF VdiAfter(f, d, ow) = d THEN (IF d = NoVdi THEN loc ELSE k) ELSE loc
  IN /\ ~Word(k, cur, ow)
     /\ op' = [o |-> "store", r |-> r, k |-> k, cur |-> cur, ow |-> IF ow THEN 1 ELSE 0, ok |-> IF ok THEN 1 ELSE 0]
     /\ IF ok THEN /\ loc' = after
                   /\ rec' = [rec EXCEPT ![r] = [there |-> TRUE, nat |-> Native(X, StoreOffset(f, d, cur, ow, "ft"))]]
                   /\ said' = [q \in Recs |-> IF q = r THEN (IF cur = None THEN Info(after).nat ELSE IF Info(after).nat = None THEN None ELSE cur)
                                              ELSE IF Info(after) # f THEN None ELSE said[q]]
        ELSE UNCHANGED <<loc, rec, said>>
Next == \E r \in Recs, k \in Vdis, cur \in Curs, ow \in Owns : Store(r, k, cur, ow)
Spec == Init /\ [][Next]_vars
(* an elevation comes back in the datum it was given in, however the file keeps it *)
RoundTrip == \A r \in Recs : said[r] # None /\ Answers(Info(loc), said[r], "ft") => Near(Shown(rec[r].nat, ShownOffset(Info(loc), said[r], "ft")), X)
(* and in the native datum it is what the file holds *)
NativeTrip == \A r \in Recs : rec[r].there => Shown(rec[r].nat, ShownOffset(Info(loc), Info(loc).nat, "ft")) = rec[r].nat
(* nobody without permission changes the VDI of a location that has one, and a refused call changes nothing *)
Guarded == [][loc # "none" /\ op'.ow = 0 => Info(loc') = Info(loc)]_vars
Refused == [][op'.ok = 0 => UNCHANGED <<loc, rec>>]_vars
View == [loc |-> loc, rec |-> rec]
Abst == <<loc, rec>>
Emit == Show => PrintT("@T " \o ToJson([f |-> View, o |-> op', t |-> View']))
=============================================================================
