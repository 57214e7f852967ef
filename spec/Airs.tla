-------------------------------- MODULE Airs --------------------------------
(***************************************************************************)
(* A zoo of arithmetizations with satisfying traces: the repository's      *)
(* examples (as data), and others that differ from them in every dimension *)
(* a user can choose.  Each operator maps a field, a trace length and two  *)
(* seed values to [air, desc, pub, cols].                                  *)
(***************************************************************************)
EXTENDS Stark, FiniteSets, SequencesExt

Fields ==
    [t193     |-> [p |-> "c1",   ad |-> 6,  w |-> "7d",  nb |-> 8],
     t257     |-> [p |-> "101",  ad |-> 8,  w |-> "3",   nb |-> 8],
     t12289   |-> [p |-> "3001", ad |-> 12, w |-> "533", nb |-> 8],
     t40961   |-> [p |-> "a001", ad |-> 13, w |-> "f3",  nb |-> 8],
     stark252 |-> [p |-> "800000000000011000000000000000000000000000000000000000000000001",
                   ad |-> 192, nb |-> 32,
                   w |-> "5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94"]]

C(r, c)    == [r |-> r, col |-> c, ch |-> 0]
Ch(i)      == [r |-> 0, col |-> 0, ch |-> i]
Tm(c, f)   == [c |-> c, f |-> f]
Con(d, e, t) == [deg |-> d, ex |-> e, terms |-> t]
Bd(c, s, v)  == [col |-> c, step |-> s, val |-> v]
\* number of distinct non-zero exemptions
Nex(cons) == Cardinality({cons[k].ex : k \in 1..Len(cons)} \ {0})
Mk(air, cols, aux, nch, offs, cons, bound, dbound, pub, tr) ==
    [air |-> air, pub |-> pub, cols |-> tr,
     desc |-> [kind |-> "data", cols |-> cols, aux |-> aux, nch |-> nch, offs |-> offs, cons |-> cons,
               bound |-> bound, dbound |-> dbound, nex |-> Nex(cons)]]

\* sequences by recurrence: grow(acc) gives the next element
Grow(acc, n, f(_)) ==
    SubSeq(FoldLeft(LAMBDA q, k : IF Len(q) >= n THEN q ELSE TLCEval(Append(q, f(q))), acc,
                    TLCEval([k \in 1..n |-> k])), 1, n)
ColsOf(rows) == TLCEval([c \in 1..Len(rows[1]) |-> TLCEval([k \in 1..Len(rows) |-> rows[k][c]])])
L(q) == q[Len(q)]
L2(q) == q[Len(q) - 1]

FibCol(F, T, a, b) == LET f(q) == FAdd(F.p, L(q), L2(q)) IN Grow(<<a, b>>, T, f)
FibCon == Con(1, 2, <<Tm(1, <<C(2, 0)>>), Tm(-1, <<C(1, 0)>>), Tm(-1, <<C(0, 0)>>)>>)

\* --- the repository's examples ---------------------------------------------
AFib(F, T, a, b) ==
    Mk("fib", 1, 0, 0, <<0, 1, 2>>, <<FibCon>>, <<Bd(0, 0, a), Bd(0, 1, b)>>, 1,
       [a0 |-> a, a1 |-> b], <<FibCol(F, T, a, b)>>)
AFib2(F, T, a, b) ==
    LET f(q) == LET x == FAdd(F.p, L(q)[1], L(q)[2]) IN <<x, FAdd(F.p, L(q)[2], x)>>
    IN Mk("fib2", 2, 0, 0, <<0, 1>>,
          <<Con(1, 1, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0)>>), Tm(-1, <<C(0, 1)>>)>>),
            Con(1, 1, <<Tm(1, <<C(1, 1)>>), Tm(-1, <<C(0, 1)>>), Tm(-1, <<C(1, 0)>>)>>)>>,
          <<Bd(0, 0, a), Bd(1, 0, b)>>, 1, [a0 |-> a, a1 |-> b],
          ColsOf(Grow(<<<<a, b>>>>, T, f)))
AQuad(F, T, a, b) ==
    LET f(q) == FMul(F.p, L(q), L(q))
    IN Mk("quad", 1, 0, 0, <<0, 1>>, <<Con(2, 1, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0), C(0, 0)>>)>>)>>,
          <<Bd(0, 0, a)>>, 2, [a0 |-> a], <<Grow(<<a>>, T, f)>>)
\* steps < T - 1 leaves padding at the end
RapDesc(T, steps, cols) ==
    Mk("rap", 3, 1, 1, <<0, 1, 2>>,
       <<Con(1, 2 + T - steps, FibCon.terms),
         Con(2, 1, <<Tm(1, <<C(1, 2), C(0, 1)>>), Tm(1, <<C(1, 2), Ch(1)>>),
                     Tm(-1, <<C(0, 2), C(0, 0)>>), Tm(-1, <<C(0, 2), Ch(1)>>)>>)>>,
       <<Bd(0, 0, "1"), Bd(0, 1, "1"), Bd(2, 0, "1")>>, 1,
       [a0 |-> "1", a1 |-> "1", steps |-> steps], cols)
ARap(F, T, a, b) ==
    LET steps == Max2(2, T - 1 - (ToInt(FRed("7", a)) % Max2(1, T \div 4)))
        c == FibCol(F, steps, "1", "1")
        d == [c EXCEPT ![1] = c[steps], ![steps] = c[1]]
        pad(q) == TLCEval([k \in 1..T |-> IF k <= Len(q) THEN q[k] ELSE "0"])
    IN RapDesc(T, steps, <<pad(c), pad(d)>>)
ADummy(F, T, a, b) ==
    Mk("dummy", 2, 0, 0, <<0, 1, 2>>,
       <<Con(2, 0, <<Tm(1, <<C(0, 0), C(0, 0)>>), Tm(-1, <<C(0, 0)>>)>>),
         Con(1, 2, <<Tm(1, <<C(2, 1)>>), Tm(-1, <<C(1, 1)>>), Tm(-1, <<C(0, 1)>>)>>)>>,
       <<Bd(1, 0, "1"), Bd(1, 1, "1")>>, 1, [a0 |-> "1"],
       <<TLCEval([k \in 1..T |-> "1"]), FibCol(F, T, "1", "1")>>)

\* --- others ------------------------------------------------------------------
\* one column, degree two, nothing exempt
AFlat(F, T, a, b) ==
    Mk("data", 1, 0, 0, <<0>>, <<Con(2, 0, <<Tm(1, <<C(0, 0), C(0, 0)>>), Tm(-1, <<C(0, 0)>>)>>)>>,
       <<Bd(0, T - 1, "1")>>, 1, [n |-> 0],
       <<TLCEval([k \in 1..T |-> IF k = T \/ k % 3 = 0 THEN "1" ELSE "0"])>>)
\* a constant column, nothing exempt (the last row wraps around)
AConst(F, T, a, b) ==
    Mk("data", 1, 0, 0, <<0, 1>>, <<Con(1, 0, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0)>>)>>)>>,
       <<Bd(0, T \div 2, a)>>, 1, [n |-> 0], <<TLCEval([k \in 1..T |-> a])>>)
\* frame rows 0 and 2 only, an affine recurrence
ALag(F, T, a, b) ==
    LET f(q) == FAdd(F.p, L2(q), "3")
        c == Grow(<<a, b>>, T, f)
    IN Mk("data", 1, 0, 0, <<0, 2>>, <<Con(1, 2, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0)>>), Tm(-3, <<>>)>>)>>,
          <<Bd(0, 1, b), Bd(0, 0, a), Bd(0, T - 1, c[T])>>, 1, [n |-> 0], <<c>>)
\* frame rows 0, 1 and 3
ASkip(F, T, a, b) ==
    LET f(q) == FMul(F.p, L2(q), q[Len(q) - 2])
        c == Grow(<<a, b, FAdd(F.p, a, "2")>>, T, f)
    IN Mk("data", 1, 0, 0, <<0, 1, 3>>, <<Con(2, 3, <<Tm(1, <<C(2, 0)>>), Tm(-1, <<C(1, 0), C(0, 0)>>)>>)>>,
          <<Bd(0, 0, a), Bd(0, 1, b), Bd(0, 2, c[3]), Bd(0, T - 2, c[T - 1])>>, 1, [n |-> 0], <<c>>)
\* degrees three and two, degree bound two, boundary constraints on first, middle and last rows
ACube(F, T, a, b) ==
    LET f(q) == LET x == L(q)[1] y == L(q)[2]
                IN <<FSub(F.p, FMul(F.p, FMul(F.p, x, x), y), FMul(F.p, "2", y)), FAdd(F.p, FMul(F.p, x, y), "1")>>
        c == ColsOf(Grow(<<<<a, b>>>>, T, f))
    IN Mk("data", 2, 0, 0, <<0, 1>>,
          <<Con(3, 1, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0), C(0, 0), C(0, 1)>>), Tm(2, <<C(0, 1)>>)>>),
            Con(2, 1, <<Tm(1, <<C(1, 1)>>), Tm(-1, <<C(0, 0), C(0, 1)>>), Tm(-1, <<>>)>>)>>,
          <<Bd(0, 0, a), Bd(1, 0, b), Bd(1, T - 1, c[2][T]), Bd(0, T \div 2, c[1][T \div 2 + 1])>>, 2, [n |-> 0], c)
\* three columns with exemptions 3, 1 and 0; the exempt rows do break the constraint
AExm(F, T, a, b) ==
    LET f(q) == FAdd(F.p, L(q), L2(q))
        c0 == TLCEval([Grow(<<a, b>>, T, f) EXCEPT ![T] = FAdd(F.p, a, "5")])
        g(q) == FMul(F.p, L(q), c0[Len(q)])
        c1 == Grow(<<b>>, T, g)
        c2 == TLCEval([k \in 1..T |-> IF k % 3 = 1 THEN "1" ELSE "0"])
    IN Mk("data", 3, 0, 0, <<0, 1, 2>>,
          <<Con(1, 3, FibCon.terms),
            Con(2, 1, <<Tm(1, <<C(1, 1)>>), Tm(-1, <<C(0, 1), C(0, 0)>>)>>),
            Con(2, 0, <<Tm(1, <<C(0, 2), C(0, 2)>>), Tm(-1, <<C(0, 2)>>)>>)>>,
          <<Bd(2, 0, "1"), Bd(0, 0, a), Bd(1, 0, b)>>, 1, [n |-> 0], <<c0, c1, c2>>)
\* the same constraints in another order: exemptions 1, 3, 1
AExm2(F, T, a, b) ==
    LET x == AExm(F, T, a, b)
        cons == <<x.desc.cons[2], x.desc.cons[1], Con(2, 1, x.desc.cons[3].terms)>>
    IN [x EXCEPT !.desc.cons = cons, !.desc.nex = Nex(cons)]
\* five columns, each fed by the next, boundary constraints on every one
AWide(F, T, a, b) ==
    LET f(q) == LET r == L(q)
                IN TLCEval([k \in 1..5 |-> IF k = 5 THEN FAdd(F.p, r[5], "1") ELSE FAdd(F.p, r[k], FMul(F.p, r[k + 1], r[5]))])
        c == ColsOf(Grow(<<TLCEval([k \in 1..5 |-> FAdd(F.p, a, FMul(F.p, b, Hex(k)))])>>, T, f))
    IN Mk("data", 5, 0, 0, <<0, 1>>,
          TLCEval([k \in 1..5 |->
             IF k = 5 THEN Con(1, 1, <<Tm(1, <<C(1, 4)>>), Tm(-1, <<C(0, 4)>>), Tm(-1, <<>>)>>)
             ELSE Con(2, 1, <<Tm(1, <<C(1, k - 1)>>), Tm(-1, <<C(0, k - 1)>>), Tm(-1, <<C(0, k), C(0, 4)>>)>>)]),
          TLCEval([k \in 1..5 |-> Bd(k - 1, IF k % 2 = 1 THEN 0 ELSE T - 1, c[k][IF k % 2 = 1 THEN 1 ELSE T])]),
          1, [n |-> 0], c)
\* many columns, each with a transition and a boundary constraint
ABroad(F, T, a, b) ==
    LET w == 80
        f(q) == LET r == L(q)
                IN TLCEval([k \in 1..w |-> IF k = w THEN FAdd(F.p, FMul(F.p, r[k], r[k]), r[1]) ELSE FAdd(F.p, r[k], r[k + 1])])
        c == ColsOf(Grow(<<TLCEval([k \in 1..w |-> FAdd(F.p, a, FMul(F.p, b, Hex(k)))])>>, T, f))
    IN Mk("data", w, 0, 0, <<0, 1>>,
          TLCEval([k \in 1..w |->
             IF k = w THEN Con(2, 1, <<Tm(1, <<C(1, k - 1)>>), Tm(-1, <<C(0, k - 1), C(0, k - 1)>>), Tm(-1, <<C(0, 0)>>)>>)
             ELSE Con(1, 1, <<Tm(1, <<C(1, k - 1)>>), Tm(-1, <<C(0, k - 1)>>), Tm(-1, <<C(0, k)>>)>>)]),
          TLCEval([k \in 1..w |-> Bd(k - 1, IF k % 2 = 1 THEN 0 ELSE T - 1, c[k][IF k % 2 = 1 THEN 1 ELSE T])]),
          1, [n |-> 0], c)
\* counting: a trace whose rows need no computing
ALine(F, T, a, b) ==
    LET c == TLCEval([i \in 1..T |-> FAdd(F.p, a, Hex(i))])
    IN Mk("data", 1, 0, 0, <<0, 1>>, <<Con(1, 1, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0)>>), Tm(-1, <<>>)>>)>>,
          <<Bd(0, 0, c[1]), Bd(0, T - 1, c[T])>>, 1, [n |-> 0], <<c>>)
\* no boundary constraint at all
AFree(F, T, a, b) ==
    Mk("data", 1, 0, 0, <<0, 1, 2>>, <<FibCon>>, <<>>, 1, [n |-> 0], <<FibCol(F, T, a, b)>>)
\* two auxiliary columns over two challenges
ARap2(F, T, a, b) ==
    LET f(q) == FAdd(F.p, FMul(F.p, L(q), L(q)), "1")
        c == Grow(<<a>>, T, f)
        \* a cyclic shift of the first T - 1 rows
        d == TLCEval([k \in 1..T |-> IF k = T THEN b ELSE c[((k + 1) % (T - 1)) + 1]])
        pc(x, h) == Con(2, 1, <<Tm(1, <<C(1, x), C(0, 1)>>), Tm(1, <<C(1, x), Ch(h)>>),
                                Tm(-1, <<C(0, x), C(0, 0)>>), Tm(-1, <<C(0, x), Ch(h)>>)>>)
    IN Mk("data", 4, 2, 2, <<0, 1>>,
          <<Con(2, 1, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0), C(0, 0)>>), Tm(-1, <<>>)>>), pc(2, 1), pc(3, 2)>>,
          <<Bd(0, 0, a), Bd(2, 0, "1"), Bd(3, 0, "1"), Bd(2, T - 1, "1"), Bd(3, T - 1, "1")>>, 1, [n |-> 0], <<c, d>>)

\* everything zero: polynomials without coefficients
ANull(F, T, a, b) ==
    Mk("data", 2, 0, 0, <<0, 1>>,
       <<Con(1, 1, <<Tm(1, <<C(1, 0)>>), Tm(-1, <<C(0, 0)>>)>>), Con(2, 0, <<Tm(3, <<C(0, 0), C(0, 1)>>)>>)>>,
       <<Bd(0, T - 1, "0"), Bd(1, 0, "0")>>, 1, [n |-> 0], <<TLCEval([k \in 1..T |-> "0"]), TLCEval([k \in 1..T |-> "0"])>>)
(***************************************************************************)
(* An arithmetization drawn at random (from a and b): free columns of      *)
(* several kinds; columns computed from earlier ones, at any frame row and *)
(* with any exemption (the exempt rows break the constraint); frame        *)
(* offsets in any order, repeated, wrapping; boundary constraints on any   *)
(* cells; and sometimes running products over challenges.                  *)
(***************************************************************************)
AAny(F, T, a, b) ==
    LET h(q) == Keccak(Be(a, 32) \o Be(b, 32) \o BCat(TLCEval([k \in 1..Len(q) |-> Be(Hex(q[k]), 4)])))
        R(q, n) == ToInt(NMod(NatBe(BSub(h(q), 0, 8)), Hex(n)))
        fe(q) == FRed(F.p, NatBe(BSub(h(q), 0, 30)))
        rap == R(<<1>>, 3) = 0
        naux == IF rap THEN 1 + R(<<2>>, 2) ELSE 0
        nm == IF rap THEN 2 + R(<<3>>, 3) ELSE 1 + R(<<3>>, 5)
        nr == IF rap THEN 2 + R(<<4>>, 3) ELSE 1 + R(<<4>>, 4)
        nb == R(<<22>>, 5)
        \* running products need the row and the next one, boundary constraints the row first
        offs == TLCEval([k \in 1..nr |-> IF rap /\ k <= 2 THEN k - 1 ELSE IF k = 1 /\ nb > 0 THEN 0 ELSE R(<<5, k>>, 5)])
        free(k) == k = 1 \/ (k = 2 /\ (R(<<6, k>>, 3) = 0 \/ rap)) \/ R(<<6, k>>, 5) = 0
        kind(k) == R(<<7, k>>, 5)
        freecol(k) == TLCEval([r \in 1..T |->
                        CASE kind(k) = 0 -> "0"
                          [] kind(k) = 1 -> fe(<<8, k>>)
                          [] kind(k) = 2 -> IF r = 1 + R(<<9, k>>, T) THEN fe(<<8, k>>) ELSE "0"
                          [] OTHER -> fe(<<10, k, r>>)])
        \* the computed columns' constraints: the target's frame row, the exemption, the right-hand side
        row(k) == 1 + R(<<11, k>>, nr)
        ex(k) == LET e == <<0, 0, 0, 1, 2, 3, T \div 2, T - 1>>[1 + R(<<12, k>>, 8)] IN IF e > T THEN T ELSE e
        deg(k, t) == R(<<13, k, t>>, 4)
        nterms(k) == 1 + R(<<14, k>>, 3)
        rhs(k) == TLCEval([t \in 1..nterms(k) |->
                    Tm(1 + R(<<15, k, t>>, 9), TLCEval([j \in 1..deg(k, t) |-> C(R(<<16, k, t, j>>, nr), R(<<17, k, t, j>>, k - 1))]))])
        neg(ts) == TLCEval([t \in 1..Len(ts) |-> [ts[t] EXCEPT !.c = -@]])
        degree(k) == Max2(1, FoldLeft(LAMBDA m, t : Max2(m, deg(k, t)), 0, TLCEval([t \in 1..nterms(k) |-> t])))
        con(k) == Con(degree(k), ex(k), <<Tm(1, <<C(row(k) - 1, k - 1)>>)>> \o neg(rhs(k)))
        at(cols, r, c) == cols[c.col + 1][((r - 1 + offs[c.r + 1]) % T) + 1]
        val(cols, r, ts) == FoldLeft(LAMBDA s, t : FAdd(F.p, s, FoldLeft(LAMBDA p, c : FMul(F.p, p, at(cols, r, c)), FInt(F.p, t.c), t.f)), "0", ts)
        computed(cols, k) ==
            LET ts == rhs(k)
                target(x) == ((x - 1 - offs[row(k)]) % T) + 1     \* the row whose constraint fixes cell x
            IN TLCEval([x \in 1..T |-> IF target(x) <= T - ex(k) THEN val(cols, target(x), ts) ELSE fe(<<18, k, x>>)])
        col(cols, k) == IF rap /\ k = 2 THEN TLCEval([r \in 1..T |-> cols[1][T + 1 - r]])
                        ELSE IF free(k) THEN freecol(k) ELSE computed(cols, k)
        main == FoldLeft(LAMBDA cols, k : Append(cols, col(cols, k)), <<>>, TLCEval([k \in 1..nm |-> k]))
        pc(x) == Con(2, R(<<19, x>>, 2), <<Tm(1, <<C(1, nm + x - 1), C(0, 1)>>), Tm(1, <<C(1, nm + x - 1), Ch(x)>>),
                                           Tm(-1, <<C(0, nm + x - 1), C(0, 0)>>), Tm(-1, <<C(0, nm + x - 1), Ch(x)>>)>>)
        ks == SelectSeq(TLCEval([k \in 1..nm |-> k]), LAMBDA k : ~free(k))
        cons == TLCEval([j \in 1..Len(ks) |-> con(ks[j])]) \o TLCEval([x \in 1..naux |-> pc(x)])
        bd(j) == LET c == R(<<20, j>>, nm) s == R(<<21, j>>, T) IN Bd(c, s, main[c + 1][s + 1])
        bound == TLCEval([j \in 1..nb |-> bd(j)]) \o TLCEval([x \in 1..naux |-> Bd(nm + x - 1, 0, "1")])
        maxdeg == FoldLeft(LAMBDA m, c : Max2(m, c.deg), 1, cons)
        \* the least bound on the degree that leaves room for every constraint
        one == maxdeg <= 2 /\ \A j \in 1..Len(cons) : cons[j].ex <= cons[j].deg + T - 1
    IN Mk("data", nm + naux, naux, naux, offs, cons, bound, IF one THEN 1 ELSE 2, [n |-> 0], main)

AirNames == {"fib", "fib2", "quad", "rap", "dummy", "flat", "const", "lag", "skip", "cube",
             "exm", "exm2", "wide", "free", "rap2", "null", "any", "any2", "any3", "any4"}
\* smallest trace each makes sense for
MinT(n) == CASE n \in {"flat", "const", "null", "any", "any2", "any3", "any4"} -> 1
             [] n \in {"fib", "fib2", "quad", "lag", "free", "dummy", "cube"} -> 2
             [] n \in {"exm", "exm2"} -> 8
             [] OTHER -> 4
Stmt(n, F, T, a, b) ==
    CASE n = "fib"   -> AFib(F, T, a, b)
      [] n = "fib2"  -> AFib2(F, T, a, b)
      [] n = "quad"  -> AQuad(F, T, a, b)
      [] n = "rap"   -> ARap(F, T, a, b)
      [] n = "dummy" -> ADummy(F, T, a, b)
      [] n = "flat"  -> AFlat(F, T, a, b)
      [] n = "const" -> AConst(F, T, a, b)
      [] n = "lag"   -> ALag(F, T, a, b)
      [] n = "skip"  -> ASkip(F, T, a, b)
      [] n = "cube"  -> ACube(F, T, a, b)
      [] n = "exm"   -> AExm(F, T, a, b)
      [] n = "exm2"  -> AExm2(F, T, a, b)
      [] n = "wide"  -> AWide(F, T, a, b)
      [] n = "broad" -> ABroad(F, T, a, b)
      [] n = "line"  -> ALine(F, T, a, b)
      [] n = "free"  -> AFree(F, T, a, b)
      [] n = "rap2"  -> ARap2(F, T, a, b)
      [] n = "null"  -> ANull(F, T, a, b)
      [] OTHER       -> AAny(F, T, a, b)

(***************************************************************************)
(* The statement itself: a trace satisfies an arithmetization when every   *)
(* boundary holds and every transition constraint vanishes on every row    *)
(* that is not exempt (frames wrap around).                                *)
(***************************************************************************)
RowsAt(d, cols, T, k) == TLCEval([r \in 1..Len(d.offs) |->
                            TLCEval([c \in 1..Len(cols) |-> cols[c][((k - 1 + d.offs[r]) % T) + 1]])])
Satisfies(F, desc, cols, ch) ==
    LET A == DataAir(desc)
        T == Len(cols[1])
    IN /\ \A k \in 1..Len(A.bound) : /\ A.bound[k].step < T
                                     /\ cols[A.bound[k].col + 1][A.bound[k].step + 1] = FRed(F.p, A.bound[k].val)
       /\ \A k \in 1..T :
            LET ev == AirEval(F, A, RowsAt(desc, cols, T, k), ch)
            IN \A c \in 1..Len(ev) : k > T - A.exs[c] \/ ev[c] = "0"
\* what an arithmetization must promise for the protocol to be complete: the quotients fit
WellFormed(desc, T, blowup) ==
    LET D == desc.dbound * T
    IN /\ desc.bound = <<>> \/ desc.offs[1] = 0
       /\ \A k \in 1..Len(desc.cons) :
          LET c == desc.cons[k]
          IN /\ D >= T * (c.deg - 1)
             /\ D - c.deg + c.ex < 2 * T
             /\ D - c.deg + c.ex < blowup * T
             /\ c.ex <= T
             /\ D <= blowup * T
=============================================================================
