----------------------------- MODULE CairoAttack -----------------------------
(***************************************************************************)
(* What a prover may do to the trace of a run, and what must come of it.   *)
(* RECS holds traces the implementation built (main, pub, aux, ch); each   *)
(* behaviour changes one of them in one way and prints the changed trace   *)
(* with the verdict: the rows and the boundary the constraints reject      *)
(* (exact), and whether the changed trace still says something true        *)
(* (meaning).  The invariant Faithful relates the two.                     *)
(*                                                                         *)
(* PROFILE "cell": one cell of the full trace, auxiliary columns included, *)
(* every cell in turn.  The others change the main trace or the public     *)
(* inputs, with the auxiliary columns rebuilt, SIZE variations for each    *)
(* trace: "steps" the rows of steps, "memory" accesses and offsets,        *)
(* "claim" the public inputs.                                              *)
(***************************************************************************)
EXTENDS CairoMachine, Env

PROFILE == IOEnv.PROFILE
Rec(i) == Recs[i]
ChOf(R) == <<R.ch.alpha, R.ch.zmem, R.ch.zrc>>
Elem(q) == LET w == Pick(q \o <<1>>, 3)
           IN CASE w = 0 -> PickOf(q \o <<2>>, <<"0", "1", "2", "8000", "10000">>)
                [] w = 1 -> Hex(Pick(q \o <<3>>, 70000))
                [] OTHER -> FRed(P, NatBe(BSub(Hash(q \o <<4>>), 0, 32)))
Other(q, v) == LET e == Elem(q) IN IF e = v THEN FAdd(P, e, "1") ELSE e
Near(q, v) == FAdd(P, v, PickOf(q, <<"1", "2", FSub(P, "0", "1"), FSub(P, "0", "2")>>))

\* public memory is a map: an address that no entry has
RECURSIVE FreeFrom(_, _, _)
FreeFrom(pm, a, d) == IF \E k \in 1..Len(pm) : pm[k][1] = a THEN FreeFrom(pm, FAdd(P, a, d), d) ELSE a
FreeNear(pm, q, a) == LET d == PickOf(q, <<"1", "2", FSub(P, "0", "1"), FSub(P, "0", "2")>>) IN FreeFrom(pm, FAdd(P, a, d), d)

(***************************************************************************)
(* Changes of the main trace.  A change is a sequence of <<row, col, v>>   *)
(* with numbers from 0, and new public inputs.                             *)
(***************************************************************************)
\* which kinds of change are tried
Kinds == CASE PROFILE = "steps" -> <<0, 0, 12, 13, 14, 15>>
           [] PROFILE = "memory" -> <<1, 2, 3, 4, 5, 6, 10, 16>>
           [] PROFILE = "claim" -> <<7, 7, 8, 9, 11, 11>>
           [] OTHER -> <<>>
Change(R, q) ==
    LET T == Len(R.main)
        n == ToInt(R.pub.steps)
        kind == PickOf(q \o <<1>>, Kinds)
        at(r, c) == R.main[r + 1][c + 1]
        \* mostly rows that no step constraint looks at
        row == IF n < T /\ Pick(q \o <<2>>, 10) < 7 THEN n + Pick(q \o <<3>>, T - n) ELSE Pick(q \o <<3>>, T)
        row2 == Pick(q \o <<4>>, T)
        k == Pick(q \o <<5>>, 4) + 1
        k2 == Pick(q \o <<6>>, 4) + 1
        A(x) == CairoAddrCols[x]
        V(x) == CairoValCols[x]
        O == CairoOffCols[Pick(q \o <<7>>, 3) + 1]
        O2 == CairoOffCols[Pick(q \o <<8>>, 3) + 1]
        pmi == Pick(q \o <<9>>, Len(R.pub.pm)) + 1
        same == {<<r, x>> \in (0..(T - 1)) \X (1..4) : at(r, A(x)) = at(row, A(k))}
        w == Other(q \o <<10>>, at(row, V(k)))
        rc == Len(R.pub.rc) = 2
        lim == Pick(q \o <<11>>, 7)
        src == Pick(q \o <<12>>, Min({n, T - 1}))
        none == <<>>
        out(cs, p) == [kind |-> kind, cells |-> cs, pub |-> p]
    IN CASE kind = 0 -> LET c == Pick(q \o <<13>>, 34) IN out(<< <<row, c, Other(q \o <<14>>, at(row, c))>> >>, R.pub)
         [] kind = 1 -> out(<< <<row, V(k), w>> >>, R.pub)
         [] kind = 2 -> out(<< <<row, A(k), Near(q \o <<15>>, at(row, A(k)))>> >>, R.pub)
         [] kind = 3 -> out(<< <<row, A(k), at(row2, A(k2))>>, <<row, V(k), at(row2, V(k2))>> >>, R.pub)
         [] kind = 4 -> out(<< <<row, O, Near(q \o <<16>>, at(row, O))>> >>, R.pub)
         [] kind = 5 -> out(<< <<row, O, at(row2, O2)>> >>, R.pub)
         [] kind = 6 -> out(<< <<row, O, Near(q \o <<17>>, IF Pick(q \o <<18>>, 2) = 0 THEN R.pub.rcmin[1] ELSE R.pub.rcmax[1])>> >>, R.pub)
         [] kind = 7 -> out(none, [R.pub EXCEPT !.pm[pmi] = <<@[1], Other(q \o <<19>>, @[2])>>])
         [] kind = 8 -> out(none, [R.pub EXCEPT !.pm[pmi] = <<FreeNear(R.pub.pm, q \o <<20>>, @[1]), @[2]>>])
         [] kind = 9 -> out(none, [R.pub EXCEPT !.rcmin = IF Pick(q \o <<21>>, 2) = 0 THEN @ ELSE <<NLow(FAdd(P, @[1], "1"), 16)>>,
                                                !.rcmax = IF Pick(q \o <<21>>, 2) = 1 THEN @ ELSE <<NLow(FAdd(P, @[1], "1"), 16)>>])
         \* the same new value for a cell everywhere, public memory included or not
         [] kind = 10 -> out(LET s == SetToSeq(same) IN [j \in 1..Len(s) |-> <<s[j][1], V(s[j][2]), w>>],
                             IF Pick(q \o <<22>>, 2) = 0 THEN R.pub
                             ELSE [R.pub EXCEPT !.pm = [j \in 1..Len(@) |-> IF @[j][1] = at(row, A(k)) THEN <<@[j][1], w>> ELSE @[j]]])
         \* the registers the statement names
         [] kind = 11 -> out(none, CASE lim = 0 -> [R.pub EXCEPT !.pc_init = Near(q \o <<23>>, @)]
                                     [] lim = 1 -> [R.pub EXCEPT !.ap_init = Near(q \o <<23>>, @)]
                                     [] lim = 2 -> [R.pub EXCEPT !.pc_final = Near(q \o <<23>>, @)]
                                     [] lim = 3 -> [R.pub EXCEPT !.ap_final = Near(q \o <<23>>, @)]
                                     [] lim = 4 -> [R.pub EXCEPT !.steps = Hex(n + 1)]
                                     [] lim = 5 /\ n > 1 -> [R.pub EXCEPT !.steps = Hex(n - 1)]
                                     [] OTHER -> [R.pub EXCEPT !.pm = Tail(@)])
         \* a step that is not one, with its selector cleared
         [] kind = 12 /\ n > 1 -> LET r == Pick(q \o <<24>>, n - 1)
                        IN out(<< <<r, kSel, "0">>, <<r, kRes, Other(q \o <<25>>, at(r, kRes))>>, <<r, kMul, Other(q \o <<26>>, at(r, kMul))>> >>, R.pub)
         \* limbs of 16 bits or more; a value that is not the builtin's cell
         [] kind = 13 /\ rc -> LET j == Pick(q \o <<27>>, 7)
                               IN out(<< <<row, kRc0 + j, FAdd(P, at(row, kRc0 + j), "10000")>>,
                                         <<row, kRc0 + j + 1, FSub(P, at(row, kRc0 + j + 1), "1")>> >>, R.pub)
         [] kind = 14 /\ rc -> out(<< <<row, kRc0, FAdd(P, at(row, kRc0), "1")>>, <<row, kRcValue, FAdd(P, at(row, kRcValue), "1")>> >>, R.pub)
         [] kind = 15 /\ rc -> out(<< <<row, kRc0 + Pick(q \o <<28>>, 9), Elem(q \o <<29>>)>> >>, R.pub)
         [] OTHER -> out(<< <<row, A(k), at(src, A(k2))>>, <<row, V(k), at(row2, V(k))>> >>, R.pub)
Apply(rows, cells) ==
    LET last(r, c) == {j \in 1..Len(cells) : cells[j][1] = r - 1 /\ cells[j][2] = c - 1}
    IN TLCEval([r \in 1..Len(rows) |-> TLCEval([c \in 1..Len(rows[1]) |-> IF last(r, c) = {} THEN rows[r][c] ELSE cells[Max(last(r, c))][3]])])

(***************************************************************************)
(* What the changed trace says.                                            *)
(***************************************************************************)
Flat3(rows) == TLCEval([x \in 1..(3 * Len(rows)) |-> rows[((x - 1) \div 3) + 1][CairoOffCols[((x - 1) % 3) + 1] + 1]])
SelRows(rows) == {r \in 1..Len(rows) : rows[r][kSel + 1] # "0"}
Following(rows, r) == rows[(r % Len(rows)) + 1]
\* flag groups that no instruction has are left to the constraints (MeansStep in CairoFrames)
StepsTrue(rows, S) == \A r \in S : BitsOk(rows[r]) /\ RowRel(rows[r], Following(rows, r))
Bits3(rows) == \A r \in 1..Len(rows) : BitsOk(rows[r])
Registers(rows, p) ==
    LET z == ToInt(p.steps)
    IN /\ z \in 1..Len(rows)
       /\ rows[1][kPc + 1] = p.pc_init /\ rows[1][kAp + 1] = p.ap_init
       /\ rows[z][kPc + 1] = p.pc_final /\ rows[z][kAp + 1] = p.ap_final
Arguments(rows, p) == MemoryOk(Accesses(rows), p.pm) /\ OffsetsOk(Flat3(rows), p.rcmin[1], p.rcmax[1])
LimbsOk(rows, p) == Len(p.rc) = 2 => \A r \in 1..Len(rows) :
    FSum(P, TLCEval([k \in 1..8 |-> FMul(P, Pow2(16 * (k - 1)), rows[r][kRc0 + k])])) = rows[r][kRcValue + 1]
\* true as far as the arithmetization goes
Meaning(rows, p) == Bits3(rows) /\ StepsTrue(rows, SelRows(rows)) /\ Registers(rows, p) /\ Arguments(rows, p) /\ LimbsOk(rows, p)
\* what the statement says and the constraints do not: every step but the last is one, limbs of
\* the range-check builtin have 16 bits, and the builtin's cells are those of the memory
Untrue(R0, rows, p) ==
    (IF StepsTrue(rows, 1..(Min({ToInt(p.steps), Len(rows)}) - 1)) THEN {} ELSE {"steps"})
    \cup (IF Len(p.rc) = 2 /\ \E r \in 1..Len(rows) : \E k \in 1..8 : NBits(rows[r][kRc0 + k]) > 16 THEN {"limbs"} ELSE {})
    \cup (IF Len(p.rc) = 2 /\ \E r \in 1..Len(rows) : rows[r][kRcValue + 1] # R0.main[r][kRcValue + 1] THEN {"value"} ELSE {})
AllDefined(rows) == \A r \in SelRows(rows) : BitsOk(rows[r]) => Defined(RowGroups(rows[r]))

VARIABLES i, j, ph, x
vars == <<i, j, ph, x>>
Full(R) == TLCEval([r \in 1..Len(R.main) |-> TLCEval(R.main[r] \o R.aux[r])])
NCells(R) == Len(R.main) * (Len(R.main[1]) + 18)
Init == /\ i \in 1..Len(Recs)
        /\ j \in 1..(IF PROFILE = "cell" THEN NCells(Recs[i]) ELSE SIZE)
        /\ ph = "gen" /\ x = <<>>
R == Recs[i]
Gen == /\ ph = "gen"
       /\ x' = TLCEval(
            IF PROFILE = "cell"
            THEN LET W == Len(R.main[1]) + 18
                     r == (j - 1) \div W
                     c == (j - 1) % W
                     old == IF c < W - 18 THEN R.main[r + 1][c + 1] ELSE R.aux[r + 1][c - (W - 18) + 1]
                     v == Other(<<i, j>>, old)
                     rows == TLCEval([Full(R) EXCEPT ![r + 1] = [@ EXCEPT ![c + 1] = v]])
                     A == CairoAirOf(R.pub, Len(R.main))
                     near == {r, (r + Len(rows) - 1) % Len(rows)}
                 IN [cell |-> [row |-> r, col |-> c, v |-> v],
                     bad |-> [y \in near |-> CairoBad(P, A, rows, ChOf(R), y)],
                     bnd |-> CairoBadBound(P, A, rows, ChOf(R))]
            ELSE LET c == Change(R, <<i, j, 40>>)
                     rows == Apply(R.main, c.cells)
                     A == CairoAirOf(c.pub, Len(R.main))
                     cols == TLCEval([q \in 1..Len(rows[1]) |-> TLCEval([y \in 1..Len(rows) |-> rows[y][q]])])
                     aux == TLCEval(CairoAux(P, A, cols, ChOf(R)))
                     full == TLCEval([y \in 1..Len(rows) |-> TLCEval(rows[y] \o [q \in 1..18 |-> aux[q][y]])])
                 IN [c |-> c, main |-> rows,
                     bad |-> [y \in 0..(Len(full) - 1) |-> CairoBad(P, A, full, ChOf(R), y)], bnd |-> CairoBadBound(P, A, full, ChOf(R)),
                     meaning |-> Meaning(rows, c.pub), untrue |-> Untrue(R, rows, c.pub), aux |-> TLCEval([y \in 1..Len(rows) |-> TLCEval([q \in 1..18 |-> aux[q][y]])]), def |-> AllDefined(rows)])
       /\ ph' = "out" /\ UNCHANGED <<i, j>>
\* the rows that are rejected, and by how many constraints each
Rejected(bad) == SetToSortSeq({y \in DOMAIN bad : bad[y] # {}}, <)
Counts(bad) == LET q == Rejected(bad) IN [k \in 1..Len(q) |-> Cardinality(bad[q[k]])]
Out == /\ ph = "out"
       /\ Emit(IF PROFILE = "cell"
               THEN [rec |-> R.id, cell |-> x.cell, rows |-> Rejected(x.bad), n |-> Counts(x.bad), bnd |-> x.bnd]
               ELSE [rec |-> R.id, id |-> 0, kind |-> x.c.kind, main |-> x.main, pub |-> x.c.pub, ch |-> R.ch, rows |-> Rejected(x.bad), n |-> Counts(x.bad), bnd |-> x.bnd,
                     ok |-> Rejected(x.bad) = <<>> /\ ~x.bnd, untrue |-> x.untrue, aux |-> x.aux,
                     cells |-> [y \in 1..Len(x.c.cells) |-> [row |-> x.c.cells[y][1], col |-> x.c.cells[y][2], v |-> x.c.cells[y][3]]]])
       /\ ph' = "done" /\ UNCHANGED <<i, j, x>>
Next == Gen \/ Out
Spec == Init /\ [][Next]_vars

\* the constraints accept exactly the traces that say something true
Faithful == ph = "out" /\ PROFILE # "cell" /\ x.def => ((Rejected(x.bad) = <<>> /\ ~x.bnd) <=> x.meaning)
=============================================================================
