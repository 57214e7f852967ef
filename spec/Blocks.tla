------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The parts an arithmetization is written with: trace tables (a state     *)
(* machine: built, columns selected, columns appended), the frames and     *)
(* polynomials read from them, boundary constraints and the polynomials    *)
(* that vanish where a constraint is not to be divided.                    *)
(* A table is [w, rows]; without columns it has no rows.                   *)
(***************************************************************************)
EXTENDS Env

Flds ==
    [t193     |-> [p |-> "c1",   ad |-> 6,  w |-> "7d"],
     t257     |-> [p |-> "101",  ad |-> 8,  w |-> "3"],
     t12289   |-> [p |-> "3001", ad |-> 12, w |-> "533"],
     t40961   |-> [p |-> "a001", ad |-> 13, w |-> "f3"],
     stark252 |-> [p |-> "800000000000011000000000000000000000000000000000000000000000001",
                   ad |-> 192, w |-> "5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94"]]
FldOf(q) == PickOf(q, <<"stark252", "t12289", "t193", "t40961", "t257">>)
RECURSIVE Halve(_, _, _)
Halve(p, w, n) == IF n = 0 THEN w ELSE Halve(p, FMul(p, w, w), n - 1)
\* a generator of the subgroup of order 2^k
Root(F, k) == Halve(F.p, F.w, F.ad - k)
Felt(f, q) == IF Pick(q, 3) = 0 THEN PickOf(q \o <<1>>, <<"0", "1", "2", "c0">>) ELSE FRed(Flds[f].p, NatBe(BSub(Hash(q \o <<2>>), 0, 30)))
Many(n, el(_)) == TLCEval([k \in 1..n |-> el(k)])

RECURSIVE Trim(_)
Trim(c) == IF c = <<>> \/ c[Len(c)] # "0" THEN c ELSE Trim(SubSeq(c, 1, Len(c) - 1))
PolyMul(p, a, b) ==       \* b = x - r
    TLCEval([k \in 1..(Len(a) + 1) |-> FSub(p, IF k > 1 THEN a[k - 1] ELSE "0", IF k <= Len(a) THEN FMul(p, b, a[k]) ELSE "0")])
\* the monic polynomial with these roots
Vanish(p, rs) == FoldLeft(LAMBDA a, r : PolyMul(p, a, r), <<"1">>, rs)

(***************************************************************************)
(* Tables.                                                                 *)
(***************************************************************************)
NoTable == [w |-> 0, rows |-> <<>>]
OfData(d, w) == [w |-> w, rows |-> Many(Len(d) \div w, LAMBDA k : SubSeq(d, (k - 1) * w + 1, k * w))]
OfCols(c) == [w |-> Len(c), rows |-> Many(Len(c[1]), LAMBDA k : Many(Len(c), LAMBDA j : c[j][k]))]
Select(t, cs) == IF cs = <<>> THEN NoTable ELSE [w |-> Len(cs), rows |-> Many(Len(t.rows), LAMBDA k : Many(Len(cs), LAMBDA j : t.rows[k][cs[j] + 1]))]
Extend(t, d, n) == [w |-> t.w + n, rows |-> Many(Len(t.rows), LAMBDA k : t.rows[k] \o SubSeq(d, (k - 1) * n + 1, k * n))]
Do(t, o) == CASE o.op = "new" -> OfData(o.data, o.w)
              [] o.op = "cols" -> OfCols(o.cols)
              [] o.op = "empty" -> NoTable
              [] o.op = "select" -> Select(t, o.cs)
              [] o.op = "extend" -> Extend(t, o.data, o.n)

Column(t, j) == Many(Len(t.rows), LAMBDA k : t.rows[k][j])
Frame(t, f) == Many(Len(f.offs), LAMBDA k : t.rows[((f.step + f.offs[k] * f.blowup) % Len(t.rows)) + 1])
Pow2Rows(F, t) == \E k \in 0..Min({F.ad, 5}) : Len(t.rows) = 2 ^ k
LogRows(t) == CHOOSE k \in 0..5 : Len(t.rows) = 2 ^ k
\* everything there is to see
Observe(F, t, o) ==
    LET n == Len(t.rows)
        g == Root(F, LogRows(t))
        po == Many(t.w, LAMBDA j : Trim(PInterp(F.p, Column(t, j), "1", g)))
    IN [rows |-> t.rows, n |-> n, w |-> t.w, empty |-> t.w = 0, last |-> IF n = 0 THEN <<>> ELSE t.rows[n],
        cols |-> Many(t.w, LAMBDA j : Column(t, j)), byrow |-> t.rows, bycell |-> t.rows,
        frames |-> IF n = 0 THEN <<>> ELSE Many(Len(o.frames), LAMBDA k : IF t.w = 0 THEN "none" ELSE [n |-> Len(o.frames[k].offs), w |-> t.w, rows |-> Frame(t, o.frames[k])])]
       @@ (IF ~Pow2Rows(F, t) \/ t.w = 0 THEN <<>>
           ELSE [polys |-> po,
                 evals |-> Many(Len(o.offs), LAMBDA k : Many(t.w, LAMBDA j : PEval(F.p, po[j], FMul(F.p, o.x, FPow(F.p, g, o.offs[k])))))])

(***************************************************************************)
(* Boundary constraints: a list of [col, step, val].                       *)
(***************************************************************************)
OfCol(cs, c) == SelectSeq(cs, LAMBDA b : b.col = c)
FirstOnly(q) == FoldLeft(LAMBDA a, x : IF \E k \in 1..Len(a) : a[k] = x THEN a ELSE Append(a, x), <<>>, q)
Bounds(F, r) ==
    LET g == Root(F, r.ord)
        of(c) == OfCol(r.cons, c)
        steps(c) == Many(Len(of(c)), LAMBDA k : of(c)[k].step)
        roots(c) == Many(Len(of(c)), LAMBDA k : FPow(F.p, g, of(c)[k].step))
    IN [steps |-> Many(Len(r.cols), LAMBDA k : steps(r.cols[k])),
        allsteps |-> FirstOnly(Many(Len(r.cons), LAMBDA k : r.cons[k].step)),
        allcols |-> FirstOnly(Many(Len(r.cons), LAMBDA k : r.cons[k].col)),
        roots |-> Many(Len(r.cols), LAMBDA k : roots(r.cols[k])),
        values |-> Many(Len(r.cols), LAMBDA k : Many(Len(of(r.cols[k])), LAMBDA j : of(r.cols[k])[j].val)),
        zero |-> Many(Len(r.cols), LAMBDA k : Vanish(F.p, roots(r.cols[k])))]
(***************************************************************************)
(* Exemptions: for each different positive count, in order of appearance,  *)
(* the polynomial that vanishes on so many last points of the trace's      *)
(* domain; and for the verifier, the same for 1, 2, ... up to the largest. *)
(***************************************************************************)
Exempt(F, r) ==
    LET g == Root(F, r.log)
        pts(n) == Many(n, LAMBDA k : FPow(F.p, g, 2 ^ r.log - k))
        pos == SelectSeq(FirstOnly(r.exs), LAMBDA e : e > 0)
    IN [prover |-> Many(Len(pos), LAMBDA k : Vanish(F.p, pts(pos[k]))),
        verifier |-> Many(Max({r.exs[k] : k \in 1..Len(r.exs)}), LAMBDA n : Vanish(F.p, pts(n)))]

(***************************************************************************)
(* Generation and checking.                                                *)
(***************************************************************************)
VARIABLES st, i, t, j, out
vars == <<st, i, t, j, out>>
Init == /\ st = "start" /\ t = NoTable /\ j = 0 /\ out = <<>>
        /\ i \in IF MODE = "chk" THEN 1..Len(Recs) ELSE 1..SIZE
R == Recs[i]
Fi == FldOf(<<i>>)
FramesOf(q, n) == Many(3, LAMBDA k : [step |-> Pick(q \o <<k, 1>>, n + 3), blowup |-> PickOf(q \o <<k, 2>>, <<1, 1, 2, 4, 255>>),
                                      offs |-> PickOf(q \o <<k, 3>>, <<<<0>>, <<0, 1>>, <<0, 1, 2>>, <<0, 2>>, <<2, 0, 5>>, <<>>, <<1, 1>>>>)])
FirstOp(q) ==
    LET \* now and then hundreds of rows, or of columns
        big == PickOf(q \o <<7>>, [k \in 1..40 |-> IF k = 1 THEN "tall" ELSE IF k = 2 THEN "broad" ELSE "small"])
        n == IF big = "tall" THEN PickOf(q \o <<1>>, <<256, 257, 300>>) ELSE PickOf(q \o <<1>>, <<0, 1, 2, 3, 4, 4, 5, 8, 8, 16, 32>>)
        w == IF big = "broad" THEN PickOf(q \o <<2>>, <<65, 256, 257, 300>>) ELSE PickOf(q \o <<2>>, <<1, 2, 3, 5>>)
    IN CASE Pick(q \o <<3>>, 10) = 0 -> [op |-> "empty"]
         [] Pick(q \o <<3>>, 10) \in 1..4 -> [op |-> "new", w |-> w, data |-> Many(n * w, LAMBDA k : Felt(Fi, q \o <<4, k>>))]
         [] OTHER -> [op |-> "cols", cols |-> Many(w, LAMBDA c : Many(n, LAMBDA k : Felt(Fi, q \o <<5, c, k>>)))]
LaterOp(q) ==
    LET n == 1 + Pick(q \o <<1>>, 3)
    IN IF Pick(q \o <<2>>, 2) = 0 \/ Len(t.rows) = 0
       THEN [op |-> "select", cs |-> Many(Pick(q \o <<3>>, 4), LAMBDA k : Pick(q \o <<4, k>>, t.w))]
       ELSE [op |-> "extend", n |-> n, data |-> Many(n * Len(t.rows), LAMBDA k : Felt(Fi, q \o <<5, k>>))]
Watched(o, q, n) == o @@ [frames |-> FramesOf(q \o <<8>>, n), offs |-> PickOf(q \o <<9>>, <<<<0>>, <<0, 1>>, <<0, 1, 2>>, <<3, 0>>>>), x |-> Felt(Fi, q \o <<10>>)]

Gen == /\ MODE = "gen" /\ st = "start" /\ st' = "tables" /\ UNCHANGED <<i, t, j, out>>
       /\ Emit([k |-> "bounds", field |-> Fi, ord |-> IF Pick(<<i, 36>>, 3) = 0 THEN (IF Fi = "stark252" THEN 20 ELSE IF Fi \in {"t12289", "t40961"} THEN 12 ELSE 6) ELSE Pick(<<i, 30>>, 6), cols |-> PickOf(<<i, 31>>, <<<<0>>, <<0, 1>>, <<2, 0, 1>>, <<>>, <<257, 1, 65536, 0, 256>>>>),
                cons |-> Many(IF i % 16 = 5 THEN 70 ELSE Pick(<<i, 32>>, 7),
                              LAMBDA k : [col |-> PickOf(<<i, 33, k>>, <<0, 1, 2, 0, 1, 2, 256, 257, 65536>>),
                                          step |-> PickOf(<<i, 34, k>>, <<0, 1, 2, 7, 31, 7, 0, 1, 2, 255, 256, 257, 65535, 65536, 65543>>), val |-> Felt(Fi, <<i, 35, k>>)])])
       /\ LET lg == Pick(<<i, 40>>, 5)
          IN Emit([k |-> "exempt", field |-> Fi, log |-> lg,
                   exs |-> Many(1 + Pick(<<i, 41>>, 4), LAMBDA k : Min({2 ^ lg, PickOf(<<i, 42, k>>, <<0, 1, 2, 3, 1, 5, 16>>)}))])
Walk == /\ MODE = "gen" /\ st = "tables" /\ UNCHANGED i
        /\ LET stop == j > Pick(<<i, 20>>, 5) \/ (j > 0 /\ t.w = 0)
           IN IF stop THEN /\ Emit([k |-> "tables", field |-> Fi, ops |-> out]) /\ st' = "end" /\ UNCHANGED <<t, j, out>>
              ELSE \E o \in {TLCEval(IF j = 0 THEN FirstOp(<<i, 21>>) ELSE LaterOp(<<i, 22, j>>))} :
                     \E u \in {TLCEval(Do(t, o))} :
                       /\ t' = u /\ j' = j + 1 /\ out' = Append(out, Watched(o, <<i, 23, j>>, Len(u.rows))) /\ UNCHANGED st
Rectangular == \A k \in 1..Len(t.rows) : Len(t.rows[k]) = t.w

Differ(a, b) == {f \in DOMAIN a \cup DOMAIN b : ~Has(a, f) \/ ~Has(b, f) \/ a[f] # b[f]}
\* one operation of a recorded session at a time
Follow == /\ MODE = "chk" /\ R.k = "tables" /\ st = "start" /\ j < Len(R.ops) /\ UNCHANGED <<st, i>>
          /\ \E u \in {TLCEval(Do(t, R.ops[j + 1]))} :
               /\ t' = u /\ j' = j + 1
               /\ out' = TLCEval(out \o SetToSeq(Differ(IF Has(R, "res") /\ Len(R.res) > j THEN R.res[j + 1] ELSE <<>>, Observe(Flds[R.field], u, R.ops[j + 1]))))
Judge == /\ MODE = "chk" /\ st = "start" /\ st' = "end" /\ UNCHANGED <<i, t, j, out>>
         /\ CASE R.k = "tables" -> j = Len(R.ops) /\ Emit([id |-> R.id, bad |-> out, steps |-> j, n |-> j])
              [] R.k = "bounds" -> Emit([id |-> R.id, bad |-> IF Has(R, "res") THEN Differ(R.res, Bounds(Flds[R.field], R)) ELSE {"panic"}, steps |-> 1, n |-> 1])
              [] R.k = "exempt" -> Emit([id |-> R.id, bad |-> IF Has(R, "res") THEN Differ(R.res, Exempt(Flds[R.field], R)) ELSE {"panic"}, steps |-> 1, n |-> 1])
Next == Gen \/ Walk \/ Follow \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
