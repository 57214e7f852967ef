----------------------------- MODULE StarkProver -----------------------------
(***************************************************************************)
(* The honest prover as a state machine: from a main trace, an             *)
(* arithmetization and options to the one proof the protocol determines.   *)
(* R : [fld, opts, air, cols]   cols: main trace, a sequence of columns    *)
(***************************************************************************)
EXTENDS Stark

PStart == [ph |-> "main", t |-> TrNew, e |-> [z |-> "0"], why |-> ""]
PGo(s, ph, t, e) == [ph |-> ph, t |-> t, e |-> TLCEval(e @@ s.e), why |-> ""]

\* the auxiliary columns: for data AIRs, running products of (a + c) / (b + c)
RECURSIVE RunProd(_, _, _, _, _)
RunProd(F, a, b, c, n) ==
    IF n = 1 THEN <<"1">>
    ELSE LET r == RunProd(F, a, b, c, n - 1)
         IN Append(r, FMul(F.p, r[n - 1], FMul(F.p, FAdd(F.p, a[n - 1], c),
                                               FInv(F.p, FAdd(F.p, b[n - 1], c)))))
AuxCols(R, ch) ==
    IF R.air.aux = 0 THEN <<>>
    ELSE IF R.air.kind = "cairo" THEN CairoAux(R.fld.p, R.air, R.cols, ch)
    ELSE TLCEval([k \in 1..R.air.aux |-> RunProd(R.fld, R.cols[1], R.cols[2], ch[k], Len(R.cols[1]))])
AuxUndef(R, ch) ==
    /\ R.air.aux > 0 /\ R.air.kind = "data"
    /\ \E k \in 1..R.air.aux : \E i \in 1..(Len(R.cols[2]) - 1) : FAdd(R.fld.p, R.cols[2][i], ch[k]) = "0"

Interp(F, col) == PInterp(F.p, col, "1", Root(F, Len(col)))
Lde(F, O, T, cf) == PEvals(F.p, cf, FRed(F.p, O.off), Root(F, T * O.blowup), T * O.blowup)
Column(q, i) == TLCEval([j \in 1..Len(q) |-> q[j][i]])
CommitRows(F, N, q) == Levels(TLCEval([i \in 1..N |-> LeafOf(F, Column(q, i))]))
CommitCols(F, N, l) == Levels(TLCEval([i \in 1..N |-> LeafOf(F, <<l[i]>>)]))
EvenOdd(c, b) == TLCEval([i \in 1..(Len(c) \div 2) |-> c[2 * i - 1 + b]])

PStep(R, s) ==
    LET F  == R.fld
        O  == R.opts
        A  == R.air
        T  == Len(R.cols[1])
        N  == T * O.blowup
        p  == F.p
        g  == Root(F, T)
        e  == s.e
    IN CASE s.ph = "main" ->
              LET cf == TLCEval([j \in 1..Len(R.cols) |-> Interp(F, R.cols[j])])
                  l  == TLCEval([j \in 1..Len(cf) |-> Lde(F, O, T, cf[j])])
                  tr == CommitRows(F, N, l)
              IN PGo(s, "aux", TrAbs(s.t, TreeRoot(tr)), [cf |-> cf, lde |-> l, trees |-> <<tr>>])
         [] s.ph = "aux" ->
              LET d == DrawFes(F, s.t, A.nch)
              IN IF A.aux = 0 THEN PGo(s, "coeff", d.t, [rap |-> d.q])
                 ELSE IF AuxUndef(R, d.q) THEN [s EXCEPT !.ph = "undef"]
                 ELSE LET ac == AuxCols(R, d.q)
                          cf == TLCEval([j \in 1..Len(ac) |-> Interp(F, ac[j])])
                          l  == TLCEval([j \in 1..Len(cf) |-> Lde(F, O, T, cf[j])])
                          tr == CommitRows(F, N, l)
                      IN PGo(s, "coeff", TrAbs(d.t, TreeRoot(tr)),
                             [rap |-> d.q, cf |-> e.cf \o cf, lde |-> e.lde \o l, trees |-> Append(e.trees, tr)])
         [] s.ph = "coeff" ->
              LET nb == Len(AirBound(F, A, e.rap))
                  nt == Len(A.exs)
                  d  == DrawFes(F, s.t, 2 * nb + 2 * nt)
                  q  == d.q
                  c  == [ab |-> SubSeq(q, 1, nb), bb |-> SubSeq(q, nb + 1, 2 * nb),
                         at |-> SubSeq(q, 2 * nb + 1, 2 * nb + nt),
                         bt |-> SubSeq(q, 2 * nb + nt + 1, 2 * nb + 2 * nt)]
                  ev == TLCEval([i \in 1..N |->
                          CompAt(F, A, T, LdePt(F, O, N, i - 1),
                                 TLCEval([k \in 1..Len(A.offs) |-> Column(e.lde, ((i - 1 + A.offs[k] * O.blowup) % N) + 1)]),
                                 e.rap, c)])
                  h  == PInterp(p, ev, FRed(p, O.off), Root(F, N))
                  he == EvenOdd(h, 0)
                  ho == EvenOdd(h, 1)
                  le == Lde(F, O, T, he)
                  lo == Lde(F, O, T, ho)
                  tr == CommitRows(F, N, <<le, lo>>)
              IN PGo(s, "z", TrAbs(d.t, TreeRoot(tr)),
                     [he |-> he, ho |-> ho, le |-> le, lo |-> lo, ctree |-> tr])
         [] s.ph = "z" ->
              LET d   == DrawZ(F, O, T, N, s.t)
                  z2  == FMul(p, d.z, d.z)
                  h1  == PEval(p, e.he, z2)
                  h2  == PEval(p, e.ho, z2)
                  ood == TLCEval([k \in 1..Len(A.offs) |->
                           LET x == FMul(p, d.z, FPow(p, g, A.offs[k]))
                           IN TLCEval([j \in 1..A.cols |-> PEval(p, e.cf[j], x)])])
                  fr  == BCat(TLCEval([k \in 1..Len(ood) |->
                          BCat(TLCEval([j \in 1..A.cols |-> Be(ood[k][j], F.nb)]))]))
              IN IF \E i \in 0..(N - 1) : DeepUndef(F, A, T, LdePt(F, O, N, i), d.z)
                 THEN [s EXCEPT !.ph = "undef"]
                 ELSE PGo(s, "deep", TrAbs(d.t, Be(h1, F.nb) \o Be(h2, F.nb) \o fr),
                          [z |-> d.z, h1 |-> h1, h2 |-> h2, ood |-> ood])
         [] s.ph = "deep" ->
              LET d == DrawFes(F, s.t, 2 + A.cols * Len(A.offs))
                  q == [z |-> e.z, ge |-> d.q[1], go |-> d.q[2], gam |-> SubSeq(d.q, 3, Len(d.q))]
                  w == TLCEval([i \in 1..N |-> DeepAt(F, A, T, LdePt(F, O, N, i - 1), Column(e.lde, i),
                                                      e.le[i], e.lo[i], e.ood, e.h1, e.h2, q)])
              IN PGo(s, "fri", d.t, [word |-> w, words |-> <<>>, ftrees |-> <<>>])
         [] s.ph = "fri" ->
              LET k == Len(e.words) + 1
                  m == Len(e.word)
              IN IF k <= NLayers(T)
                 THEN LET tr == CommitCols(F, m, e.word)
                          d  == DrawFes(F, TrAbs(s.t, TreeRoot(tr)), 1)
                          w  == TLCEval([i \in 1..(m \div 2) |->
                                  Fold(F, e.word[i], e.word[i + m \div 2], d.q[1],
                                       FPow(p, LdePt(F, O, N, i - 1), 2 ^ (k - 1)))])
                      IN PGo(s, "fri", d.t, [word |-> w, words |-> Append(e.words, e.word),
                                             ftrees |-> Append(e.ftrees, tr)])
                 ELSE LET d == TrCh(TrAbs(s.t, Be(e.word[1], F.nb)))
                          n == FirstNonce(d.c, O.grind, 0)
                      IN PGo(s, "query", TrAbs(d.t, n), [last |-> e.word[1], nonce |-> n])
         [] s.ph = "query" ->
              LET d == DrawIdx(s.t, N, O.nq)
              IN PGo(s, "done", d.t, [iotas |-> d.q])
PDone(s) == s.ph \in {"done", "undef"}

\* the proof a finished run stands for
ProofOf(R, s) ==
    LET e  == s.e
        T  == Len(R.cols[1])
        N  == T * R.opts.blowup
        nl == Len(e.words)
    IN [T |-> T, oodw |-> R.air.cols, ood |-> e.ood,
        roots |-> TLCEval([k \in 1..Len(e.trees) |-> TreeRoot(e.trees[k])]),
        croot |-> TreeRoot(e.ctree), h1 |-> e.h1, h2 |-> e.h2,
        froots |-> TLCEval([k \in 1..nl |-> TreeRoot(e.ftrees[k])]),
        last |-> e.last, nonce |-> e.nonce,
        q |-> TLCEval([j \in 1..Len(e.iotas) |->
               LET at(k)  == e.iotas[j] % (N \div 2 ^ (k - 1))
                   sym(k) == (e.iotas[j] + N \div 2 ^ k) % (N \div 2 ^ (k - 1))
               IN [e  |-> TLCEval([k \in 1..nl |-> e.words[k][at(k) + 1]]),
                   es |-> TLCEval([k \in 1..nl |-> e.words[k][sym(k) + 1]]),
                   p  |-> TLCEval([k \in 1..nl |-> TreePath(e.ftrees[k], at(k))]),
                   ps |-> TLCEval([k \in 1..nl |-> TreePath(e.ftrees[k], sym(k))])]]),
        o |-> TLCEval([j \in 1..Len(e.iotas) |->
               LET i == e.iotas[j]
               IN [ce |-> e.le[i + 1], co |-> e.lo[i + 1], cp |-> TreePath(e.ctree, i),
                   te |-> Column(e.lde, i + 1),
                   tp |-> TLCEval([k \in 1..Len(e.trees) |-> TreePath(e.trees[k], i)])]])]
\* names of the parts in which two proofs differ
Differ(a, b) == {f \in DOMAIN a : a[f] # b[f]}
=============================================================================
