----------------------------- MODULE CairoTrace -----------------------------
(***************************************************************************)
(* Checks what the implementation built from a run of the machine: one     *)
(* behaviour per record, one transition per row of the execution trace,    *)
(* then the main trace, the public inputs, the auxiliary columns and the   *)
(* constraints.                                                            *)
(* Record: regs, mem, size, segs, ch (the run); pub0, exec, main, pub, aux,*)
(* viol (what was built from it); panic, at when it was not.               *)
(***************************************************************************)
EXTENDS CairoMachine, Env

MemOf(R) == TLCEval([a \in {ToInt(R.mem[k][1]) : k \in 1..Len(R.mem)} |->
              R.mem[CHOOSE k \in 1..Len(R.mem) : ToInt(R.mem[k][1]) = a][2]])
RegOf(q) == [pc |-> ToInt(q[1]), ap |-> ToInt(q[2]), fp |-> ToInt(q[3])]
SegInts(q) == IF Len(q) = 0 THEN <<0, 0>> ELSE <<ToInt(q[1]), ToInt(q[2])>>
HasRc(R) == Len(R.segs.rc) = 2
Columns(rows) == TLCEval([c \in 1..Len(rows[1]) |-> TLCEval([i \in 1..Len(rows) |-> rows[i][c]])])

VARIABLES i, j, m, r, ph, bad
vars == <<i, j, m, r, ph, bad>>
R == Recs[i]
n == Len(R.regs)
Init == /\ i \in 1..Len(Recs) /\ j = 0 /\ bad = {}
        /\ m = MemOf(Recs[i]) /\ r = RegOf(Recs[i].regs[1])
        /\ ph = IF Has(Recs[i], "exec") THEN "rows" ELSE "failed"
Failed == ph = "failed" /\ ph' = "end" /\ bad' = {"build:" \o (IF Has(R, "panic") THEN R.panic ELSE "nothing")} /\ UNCHANGED <<i, j, m, r>>

(***************************************************************************)
(* The execution trace, row by row.                                        *)
(***************************************************************************)
\* the columns in which a row differs from the step's
RowDiff(row, s, last) ==
    LET want == StepRow(m, r, s, last)
        loose == IF AnyRes(s) THEN {kRes, kT1} ELSE {}
    IN {c \in 0..33 : c \notin loose /\ row[c + 1] # want[c + 1]}
       \cup (IF AnyRes(s) /\ row[kT1 + 1] # FMul(P, row[kT0 + 1], row[kRes + 1]) THEN {kT1} ELSE {})
       \cup (IF ~HasRc(R) THEN {} ELSE {c \in 34..42 : row[c + 1] # RcRow(m, SegInts(R.segs.rc), j)[c - 33]})
Row == /\ ph = "rows" /\ j < n
       /\ \E s \in {TLCEval(Step(m, r))}, row \in {R.exec[j + 1]} :
             /\ Assert(s.ok /\ r = RegOf(R.regs[j + 1]), <<"not a run", i, j>>)
             /\ bad' = TLCEval(bad \cup (IF Len(row) # (IF HasRc(R) THEN 43 ELSE 34) THEN {"width"}
                                 ELSE {"exec:" \o ToString(c) : c \in RowDiff(row, s, j = n - 1)}))
             /\ r' = s.next
       /\ j' = j + 1 /\ UNCHANGED <<i, m, ph>>
RowsDone == /\ ph = "rows" /\ j = n
            /\ bad' = IF Len(R.exec) = n THEN bad ELSE bad \cup {"rows"}
            /\ ph' = IF Has(R, "main") THEN "main" ELSE IF Has(R, "panic") THEN "failed" ELSE "end"
            /\ UNCHANGED <<i, j, m, r>>

(***************************************************************************)
(* The main trace and the public inputs.                                   *)
(***************************************************************************)
\* the cells the verifier is told: program and output
PubCells == LET o == SegInts(R.segs.out) IN 1..R.size \cup o[1]..(o[2] - 1)
PubOk(p, limits) ==
    LET a == RegOf(R.regs[1])
        z == RegOf(R.regs[n])
    IN /\ p.pc_init = FE(a.pc) /\ p.ap_init = FE(a.ap) /\ p.fp_init = FE(a.fp)
       /\ p.pc_final = FE(z.pc) /\ p.ap_final = FE(z.ap)
       /\ p.steps = Hex(n) /\ p.rc = R.segs.rc /\ p.out = R.segs.out
       /\ {p.pm[k] : k \in 1..Len(p.pm)} = {<<Hex(a1), m[a1]>> : a1 \in PubCells}
       /\ Len(p.pm) = Cardinality(PubCells)
       /\ p.rcmin = limits[1] /\ p.rcmax = limits[2]
\* (TLC searches a set from end to end until it has been counted)
Ordered(S) == TLCEval(IF Cardinality(S) >= 0 THEN S ELSE {})
OffsetsOf(rows) == Ordered({rows[k][c + 1] : k \in 1..Len(rows), c \in {kOffDst, kOffOp0, kOffOp1}})
Least(S) == CHOOSE x \in S : \A y \in S : NLe(x, y)
Most(S)  == CHOOSE x \in S : \A y \in S : NLe(y, x)
AddrsOf(rows) == Ordered({rows[k][c + 1] : k \in 1..Len(rows), c \in {kPc, kDstA, kOp0A, kOp1A}})
MainBad ==
    LET T == Len(R.main)
        L == Len(R.pub.pm)
        head == SubSeq(R.main, 1, Min({n, T}))
        offs == OffsetsOf(R.main)
        xo == OffsetsOf(R.exec)
        lo == Least(xo)
        hi == Most(xo)
        xa == AddrsOf(R.exec)
        acc == Accesses(R.main)
        pmA == {R.pub.pm[k][1] : k \in 1..L}
        all == Ordered(AddrsOf(R.main) \cup pmA)
        name(b, x) == IF b THEN {} ELSE {x}
    IN UNION { name(head = R.exec, "main:head"),
               name(T >= 1 /\ T = 2 ^ (NBits(Hex(T)) - 1), "main:length"),
               name(\A o \in ToInt(lo)..ToInt(hi) : Hex(o) \in offs, "main:offset-gap"),
               name(\A o \in offs : NLe(lo, o) /\ NLe(o, hi), "main:offset-limits"),
               name(\A a \in ToInt(Least(xa))..ToInt(Most(xa)) : Hex(a) \in all, "main:address-gap"),
               name(T >= n /\ Len(acc) >= n * 4 + L /\ \A k \in (Len(acc) - L + 1)..Len(acc) : acc[k] = <<"0", "0">>, "main:dummies"),
               name(\A k \in (n + 1)..T : R.main[k][kSel + 1] = "0", "main:selector"),
               name(MemoryOk(acc, R.pub.pm), "main:memory"),
               name(PubOk(R.pub0, <<<<>>, <<>>>>), "pub0"),
               name(PubOk(R.pub, <<<<lo>>, <<hi>>>>), "pub") }
Main == /\ ph = "main" /\ bad' = TLCEval(bad \cup MainBad)
        /\ ph' = IF Has(R, "aux") THEN "aux" ELSE IF Has(R, "panic") THEN "failed" ELSE "end"
        /\ UNCHANGED <<i, j, m, r>>

(***************************************************************************)
(* Auxiliary columns and constraints.                                      *)
(***************************************************************************)
Ch == <<R.ch.alpha, R.ch.zmem, R.ch.zrc>>
AuxBad ==
    LET A == CairoAirOf(R.pub, Len(R.main))
        want == CairoAux(P, A, Columns(R.main), Ch)
        got == Columns(R.aux)
        full == TLCEval([k \in 1..Len(R.main) |-> R.main[k] \o R.aux[k]])
    IN {"aux:" \o ToString(c) : c \in {c \in 1..18 : c > Len(got) \/ got[c] # want[c]}}
       \cup {"air:" \o ToString(k) : k \in CairoBadRows(P, A, full, Ch)}
       \cup (IF CairoBadBound(P, A, full, Ch) THEN {"air:bound"} ELSE {})
       \cup (IF R.viol.rows # <<>> \/ R.viol.bnd THEN {"viol"} ELSE {})
       \cup (IF R.viol.valid # (CairoBadRows(P, A, full, Ch) = {} /\ ~CairoBadBound(P, A, full, Ch)) THEN {"valid"} ELSE {})
Aux == /\ ph = "aux" /\ bad' = TLCEval(bad \cup AuxBad) /\ ph' = "end" /\ UNCHANGED <<i, j, m, r>>
Report == /\ ph = "end" /\ ph' = "done" /\ UNCHANGED <<i, j, m, r, bad>>
          /\ Emit([id |-> R.id, bad |-> bad, steps |-> n + 3])
Next == Row \/ RowsDone \/ Main \/ Aux \/ Failed \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
