------------------------------ MODULE RecData ------------------------------
(* Paired data, text, arrays, grids, TINs and locations: what the data level  *)
(* calls may do to the records of one file.                                   *)
(*                                                                            *)
(* A file is a map from canonical pathname to                                 *)
(*   [k |-> kind of record, ty |-> type number, lo, hi |-> bounds of the      *)
(*    version, d |-> spelling of the name, c |-> content]                     *)
(*                                                                            *)
(* A number is the pair <<as a double, as a float>> of its decimal texts: a   *)
(* float record keeps the second only.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Plus(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Minus(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

(* -------------------------- writing records ------------------------------ *)
Is1(S, p, k) == p \in DOMAIN S /\ S[p].k = k
(* a record is only overwritten by one of the same type number *)
Allowed(S, p, ty) == p \in DOMAIN S => S[p].ty = ty
Write(S, p, k, ty, c, disp) ==
  Plus(S, p, IF p \in DOMAIN S THEN [S[p] EXCEPT !.lo = @ + 1, !.hi = @ + 1, !.c = c] ELSE [k |-> k, ty |-> ty, lo |-> 1, hi |-> 1, d |-> disp, c |-> c])
Put(S, p, k, ty, c, disp) == IF Allowed(S, p, ty) THEN Write(S, p, k, ty, c, disp) ELSE S
Delete(S, p) == Minus(S, {p})

(* ------------------------------ paired data ------------------------------ *)
(* content: sz 1 or 2; no ordinates; nc curves; o ordinates; v values, curve  *)
(* after curve; lab labels (none, or one per curve); m what else there is     *)
Cell(x, sz) == IF sz = 1 THEN <<x[2], x[2]>> ELSE x
Cells(s, sz) == [i \in 1..Len(s) |-> Cell(s[i], sz)]
At(c, r, j) == c.v[(j - 1) * c.no + r]
(* the part of a data set which a call names: 0 stands for the end of the data set *)
Part(a, b, n) == IF a < 1 THEN 1..Clip(IF b = 0 THEN n ELSE b, 1, n) ELSE a..(IF b = 0 \/ b > n THEN n ELSE b)
Lo(s) == CHOOSE x \in s : \A y \in s : x <= y
Block(c, R, J) == LET n == Cardinality(R) IN [i \in 1..(n * Cardinality(J)) |-> At(c, Lo(R) + ((i - 1) % n), Lo(J) + ((i - 1) \div n))]
Sub(s, R) == [i \in 1..Cardinality(R) |-> s[Lo(R) + i - 1]]
(* does a store replace the whole record? *)
Entire(no, nc, sc, ec, so, eo) == ~(sc > 1) /\ ~(so > 1) /\ eo \in {0, no} /\ ec \in {0, nc} /\ ((so = 0 /\ eo = 0) => (sc = 0 /\ ec = 0))
PdType(sz) == IF sz = 1 THEN 200 ELSE 205
(* a whole store of another type replaces the record, whatever it was *)
PdPut(S, p, c, disp) == Write(IF Allowed(S, p, PdType(c.sz)) THEN S ELSE Delete(S, p), p, "pd", PdType(c.sz), c, disp)
Zero == <<"0", "0">>
(* store x over rows R of curves J; labels lab for these curves, if any *)
Patch(c, R, J, x, lab) == LET n == Cardinality(R)
      in(i) == LET r == ((i - 1) % c.no) + 1 j == ((i - 1) \div c.no) + 1 IN r \in R /\ j \in J
      src(i) == LET r == ((i - 1) % c.no) + 1 j == ((i - 1) \div c.no) + 1 IN x[(j - Lo(J)) * n + (r - Lo(R)) + 1]
  IN [c EXCEPT !.v = [i \in 1..(c.no * c.nc) |-> IF in(i) THEN Cell(src(i), c.sz) ELSE c.v[i]],
               !.lab = IF lab = << >> THEN c.lab ELSE [j \in 1..c.nc |-> IF j \in J THEN lab[j - Lo(J) + 1] ELSE IF c.lab = << >> THEN "" ELSE c.lab[j]]]
PdPatch(S, p, R, J, x, lab) == IF ~Is1(S, p, "pd") THEN S
  ELSE [S EXCEPT ![p].c = Patch(S[p].c, R, J, x, lab), ![p].hi = IF lab = << >> THEN @ ELSE @ + 1]  \* making room for labels rewrites the record
PdOk(c) == Len(c.o) = c.no /\ Len(c.v) = c.no * c.nc /\ Len(c.lab) \in {0, c.nc} /\ (c.sz = 1 => \A i \in DOMAIN c.v : c.v[i][1] = c.v[i][2])

FileOk(S) == \A p \in DOMAIN S : S[p].lo >= 1 /\ S[p].lo <= S[p].hi /\ (S[p].k = "pd" => PdOk(S[p].c) /\ S[p].ty = PdType(S[p].c.sz))
=============================================================================
