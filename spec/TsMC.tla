-------------------------------- MODULE TsMC --------------------------------
(* Storing into a time series explored exhaustively for a few slots (or       *)
(* instants) on both sides of a block boundary.  Every transition is printed  *)
(* and replayed on the real library.                                          *)
EXTENDS TsData, Json
CONSTANTS E,        \* interval (regular) or block size (irregular)
          Day,      \* the last day of the first block
          NS,       \* number of slots (regular) or instants (irregular)
          Before0,  \* how many of them lie in the first block
          Vals, Flags, Kinds, MaxLen, Show
VARIABLES S, op
vars == <<S, op>>
Reg == Regular(E)
(* the i-th slot; the i-th instant: every 6 hours, the last of the first block at its very end *)
K0 == Slot(E, <<Day, DaySecs>>) - Before0
SlotI(i) == K0 + i
InstI(i) == Add(<<Day, DaySecs>>, (i - Before0) * 21600)
Pos(i) == IF Reg THEN SlotI(i) ELSE InstI(i)
Blk(k) == IF Reg THEN BlockOfSlot(E, k) ELSE BlockAt(E, k)
(* kinds of call: values only, with quality, with integer notes, with character notes, with quality and character notes *)
QW(kind) == IF kind \in {"q", "qc"} THEN 1 ELSE 0
IW(kind) == IF kind = "i" THEN 1 ELSE 0
CN(kind) == kind \in {"c", "qc"}
Attr(kind) == [u |-> "CFS", tt |-> "INST-VAL", tz |-> "", dbl |-> TRUE, off |-> 0, qw |-> QW(kind), iw |-> IW(kind), cn |-> CN(kind)]
Ent(v, kind, tag) == [v |-> v, f |-> v, q |-> IF QW(kind) = 1 THEN tag ELSE "", i |-> IF IW(kind) = 1 THEN tag ELSE "", c |-> IF CN(kind) THEN "n" \o tag ELSE ""]
Tag(i) == Dec(i)
Init == S = EmptySeries /\ op = [o |-> "init"]
Runs == {r \in (1..NS) \X (1..MaxLen) : r[1] + r[2] - 1 <= NS}
MPut == Reg /\ \E r \in Runs, f \in Flags, kind \in Kinds : \E vs \in [1..r[2] -> Vals] :
   /\ S' = Put(E, S, [k \in SlotI(r[1]) .. SlotI(r[1] + r[2] - 1) |-> Ent(vs[k - SlotI(r[1]) + 1], kind, Tag(k - K0))], Attr(kind), f)
   /\ op' = [o |-> "put", i |-> r[1], v |-> vs, f |-> f, k |-> kind]
MIrr == ~Reg /\ \E I \in SUBSET (1..NS), f \in Flags, kind \in Kinds : I # {} /\ Cardinality(I) <= MaxLen /\ \E vs \in [I -> Vals] :
   /\ S' = IrPut(E, S, [t \in {InstI(i) : i \in I} |-> LET i == CHOOSE x \in I : InstI(x) = t IN Ent(vs[i], kind, Tag(i))], Attr(kind), f)
   /\ op' = [o |-> "irput", v |-> [i \in 1..NS |-> IF i \in I THEN vs[i] ELSE ""], f |-> f, k |-> kind]
MDel == \E b \in DOMAIN S.b : S' = [b |-> Without(S.b, {b}), v |-> Restrict(S.v, {k \in DOMAIN S.v : Blk(k) # b})] /\ op' = [o |-> "del", b |-> DPart(b)]
Next == MPut \/ MIrr \/ MDel
Spec == Init /\ [][Next]_vars
Blocks == {Blk(Pos(i)) : i \in 1..NS}
View == [v |-> [i \in 1..NS |-> IF Pos(i) \in DOMAIN S.v THEN <<S.v[Pos(i)].v, S.v[Pos(i)].q, S.v[Pos(i)].i, S.v[Pos(i)].c>> ELSE << >>],
         b |-> {<<b - Day, S.b[b].qw, S.b[b].iw, S.b[b].cn>> : b \in DOMAIN S.b}]
Emit == Show => PrintT("@T " \o ToJson([f |-> View, o |-> op', t |-> View']))

(* ------------------------------- properties ------------------------------ *)
Inv == /\ \A k \in DOMAIN S.v : Blk(k) \in DOMAIN S.b
       /\ DOMAIN S.b \subseteq Blocks
V(T, k) == IF k \in DOMAIN T.v THEN T.v[k].v ELSE "none"
IsM(x) == x \in {"M", "none"}
Given == IF op'.o = "put" THEN {SlotI(op'.i + j - 1) : j \in DOMAIN op'.v} ELSE {InstI(i) : i \in {x \in DOMAIN op'.v : op'.v[x] # ""}}
GivenV(k) == IF op'.o = "put" THEN op'.v[k - SlotI(op'.i) + 1] ELSE op'.v[CHOOSE i \in DOMAIN op'.v : InstI(i) = k]
Is(o) == op'.o = o
AllPos == {Pos(i) : i \in 1..NS}
(* values outside the call stay *)
Outside == [][Is("put") => \A k \in AllPos \ Given : (IsM(V(S, k)) /\ IsM(V(S', k))) \/ V(S', k) = V(S, k)]_vars
Replaced == [][Is("put") /\ op'.f \in {0, 2} => \A k \in Given : IF GivenV(k) = "M" THEN IsM(V(S', k)) ELSE V(S', k) = GivenV(k)]_vars
Fills == [][Is("put") /\ op'.f = 1 => \A k \in Given : IF IsM(V(S, k)) THEN (GivenV(k) = "M" /\ IsM(V(S', k))) \/ V(S', k) = GivenV(k) ELSE V(S', k) = V(S, k)]_vars
NeverLost == [][Is("put") /\ op'.f = 4 => \A k \in Given : IF GivenV(k) = "M" THEN (IsM(V(S, k)) /\ IsM(V(S', k))) \/ V(S', k) = V(S, k) ELSE V(S', k) = GivenV(k)]_vars
(* flag 3 leaves no block of nothing among those it wrote *)
NoneEmpty == [][Is("put") /\ op'.f = 3 => \A b \in {Blk(k) : k \in Given} \cap DOMAIN S'.b : \E k \in DOMAIN S'.v : Blk(k) = b /\ ~Plain(S'.v[k])]_vars
Merged == [][Is("irput") /\ op'.f = 0 => \A k \in AllPos : V(S', k) = IF k \in Given THEN GivenV(k) ELSE V(S, k)]_vars
Cut == [][Is("irput") /\ op'.f = 1 => \A k \in AllPos :
          V(S', k) = IF k \in Given THEN GivenV(k)
                     ELSE IF (\E a \in Given : Before(a, k)) /\ (\E a \in Given : Before(k, a)) THEN "none" ELSE V(S, k)]_vars
(* a note stays with its value until that value is written, notes of the other kind come, or the block goes *)
NoteStays == [][~Is("del") /\ op'.k # "i" => \A k \in DOMAIN S.v \cap DOMAIN S'.v : (k \in Given /\ (CN(op'.k) \/ Is("irput"))) \/ S'.v[k].c = S.v[k].c]_vars
=============================================================================
