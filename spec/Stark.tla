------------------------------- MODULE Stark -------------------------------
(***************************************************************************)
(* The algebra shared by the prover and verifier specifications: domains,  *)
(* the transcript, Merkle trees, arithmetizations and the protocol's       *)
(* polynomial identities.  Everything is executable, so one specification  *)
(* judges toy fields and the 252-bit field alike.                          *)
(*                                                                         *)
(* F : [p, w, ad, nb]  prime, generator of the 2^ad-torsion, byte length   *)
(* O : [blowup, nq, off, grind]   proof options                            *)
(***************************************************************************)
EXTENDS PrimeField, Keccak, TLC, CairoAir

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Max2(a, b) == IF a >= b THEN a ELSE b
IsPow2(n) == n >= 1 /\ n = 2 ^ Log2(n)

(***************************************************************************)
(* Domains.                                                                *)
(***************************************************************************)
\* primitive n-th root of unity, n a power of two
Root(F, n) == FPowN(F.p, F.w, NDiv(Pow2(F.ad), Hex(n)))
\* i-th point of the shifted evaluation domain of size n
LdePt(F, O, n, i) == FMul(F.p, FRed(F.p, O.off), FPow(F.p, Root(F, n), i))

(***************************************************************************)
(* Transcript: a hash chain.  t.h holds the bytes absorbed since the last  *)
(* challenge (the previous challenge is absorbed first); t.ev is the       *)
(* history of absorbed messages and drawn challenges.                      *)
(***************************************************************************)
TrNew == [h |-> "", ev |-> <<>>]
TrAbs(t, b) == [h |-> t.h \o b,
                ev |-> IF Len(t.ev) > 0 /\ t.ev[Len(t.ev)][1] = "a"
                       THEN [t.ev EXCEPT ![Len(t.ev)] = <<"a", @[2] \o b>>]
                       ELSE Append(t.ev, <<"a", b>>)]
TrCh(t) == LET c == BRev(Keccak(t.h))
           IN [c |-> c, t |-> [h |-> c, ev |-> Append(t.ev, <<"c", c>>)]]
\* a field element: the low bits of the challenge, one bit fewer than the modulus
ChFe(F, c) == FRed(F.p, NLow(NatBe(c), NBits(F.p) - 1))
\* an index below n
ChIdx(c, n) == ToInt(NMod(NatBe(BSub(c, 0, 8)), Hex(n)))
RECURSIVE DrawFes(_, _, _)
DrawFes(F, t, n) == IF n = 0 THEN [q |-> <<>>, t |-> t]
                    ELSE LET d == DrawFes(F, t, n - 1)
                             c == TrCh(d.t)
                         IN [q |-> Append(d.q, ChFe(F, c.c)), t |-> c.t]
RECURSIVE DrawIdx(_, _, _)
DrawIdx(t, n, k) == IF k = 0 THEN [q |-> <<>>, t |-> t]
                    ELSE LET d == DrawIdx(t, n, k - 1)
                             c == TrCh(d.t)
                         IN [q |-> Append(d.q, ChIdx(c.c, n)), t |-> c.t]
\* the out-of-domain point: drawn again while it lies in one of the two domains
InDomains(F, O, T, N, z) ==
    \/ FPow(F.p, z, T) = "1"
    \/ FPow(F.p, FMul(F.p, z, FInv(F.p, FRed(F.p, O.off))), N) = "1"
RECURSIVE DrawZ(_, _, _, _, _)
DrawZ(F, O, T, N, t) == LET c == TrCh(t)
                            z == ChFe(F, c.c)
                        IN IF InDomains(F, O, T, N, z)
                           THEN LET d == DrawZ(F, O, T, N, c.t) IN [d EXCEPT !.again = @ + 1]
                           ELSE [z |-> z, t |-> c.t, again |-> 0]

\* the work behind a nonce (8-byte big-endian in proofs)
Work(ch, nonce) == LET n == NatBe(BSub(Keccak(ch \o BRev(nonce)), 0, 8))
                   IN IF n = "0" THEN 64 ELSE NTz(n)
RECURSIVE FirstNonce(_, _, _)
FirstNonce(ch, factor, n) == IF Work(ch, Be(Hex(n), 8)) >= factor THEN Be(Hex(n), 8)
                             ELSE FirstNonce(ch, factor, n + 1)

(***************************************************************************)
(* Merkle trees over 2^k leaves.                                           *)
(***************************************************************************)
LeafOf(F, vals) == Keccak(BCat(TLCEval([i \in 1..Len(vals) |-> Be(vals[i], F.nb)])))
\* all levels, leaves first
RECURSIVE Levels(_)
Levels(l) == IF Len(l) = 1 THEN <<l>>
             ELSE <<l>> \o Levels(TLCEval([i \in 1..(Len(l) \div 2) |-> Keccak(l[2 * i - 1] \o l[2 * i])]))
TreeRoot(lv) == lv[Len(lv)][1]
TreePath(lv, i) == TLCEval([k \in 1..(Len(lv) - 1) |->
                      LET j == i \div (2 ^ (k - 1))
                      IN lv[k][IF j % 2 = 0 THEN j + 2 ELSE j]])
RECURSIVE PathRoot(_, _, _)
PathRoot(h, path, i) == IF Len(path) = 0 THEN h
                        ELSE PathRoot(IF i % 2 = 0 THEN Keccak(h \o Head(path)) ELSE Keccak(Head(path) \o h),
                                      Tail(path), i \div 2)
Opens(F, root, path, i, vals) == PathRoot(LeafOf(F, vals), path, i) = root

(***************************************************************************)
(* Arithmetizations.  kind "data": polynomials given as data; kind         *)
(* "cairo": CairoAir.tla.                                                  *)
(*   cols, aux   columns in total, auxiliary columns among them            *)
(*   nch         randomized-AIR challenges drawn after the main commitment *)
(*   offs        row offsets of a frame                                    *)
(*   degs, exs   degree and end exemptions of each transition constraint   *)
(*   dbound      composition degree bound, in trace lengths                *)
(***************************************************************************)
AirEval(F, A, rows, ch) ==
    IF A.kind = "cairo" THEN CairoEval(F.p, A, rows, ch)
    ELSE TLCEval([k \in 1..Len(A.cons) |->
           FSum(F.p, TLCEval([j \in 1..Len(A.cons[k].terms) |->
             LET tm == A.cons[k].terms[j]
             IN FMul(F.p, FInt(F.p, tm.c),
                     FProd(F.p, TLCEval([m \in 1..Len(tm.f) |->
                        LET f == tm.f[m]
                        IN IF f.ch > 0 THEN ch[f.ch] ELSE rows[f.r + 1][f.col + 1]])))]))])
\* boundary constraints: sequence of [col, step, val], numbered from 0
AirBound(F, A, ch) ==
    IF A.kind = "cairo" THEN CairoBound(F.p, A, ch)
    ELSE TLCEval([k \in 1..Len(A.bound) |->
           [col |-> A.bound[k].col, step |-> A.bound[k].step, val |-> FRed(F.p, A.bound[k].val)]])
DataAir(d) == [kind |-> "data", cols |-> d.cols, aux |-> d.aux, nch |-> d.nch, offs |-> d.offs,
               cons |-> d.cons, bound |-> d.bound, dbound |-> d.dbound,
               degs |-> TLCEval([k \in 1..Len(d.cons) |-> d.cons[k].deg]),
               exs  |-> TLCEval([k \in 1..Len(d.cons) |-> d.cons[k].ex])]

(***************************************************************************)
(* The composition polynomial at x, given the frame rows there.            *)
(* cf : [ab, bb, at, bt] coefficients for boundary and transition terms    *)
(***************************************************************************)
CompAt(F, A, T, x, rows, ch, cf) ==
    LET p  == F.p
        g  == Root(F, T)
        D  == A.dbound * T
        bs == AirBound(F, A, ch)
        ev == AirEval(F, A, rows, ch)
        bt == TLCEval([k \in 1..Len(bs) |->
                FMul(p, FMul(p, FSub(p, rows[1][bs[k].col + 1], bs[k].val),
                                FInv(p, FSub(p, x, FPow(p, g, bs[k].step)))),
                        FAdd(p, FMul(p, cf.ab[k], FPow(p, x, D - T)), cf.bb[k]))])
        zi == FInv(p, FSub(p, FPow(p, x, T), "1"))
        tt == TLCEval([k \in 1..Len(ev) |->
                LET ex == FProd(p, TLCEval([m \in 1..A.exs[k] |-> FSub(p, x, FPow(p, g, T - m))]))
                IN FMul(p, FMul(p, FMul(p, ev[k], ex), zi),
                           FAdd(p, FMul(p, cf.at[k], FPow(p, x, D - T * (A.degs[k] - 1))), cf.bt[k]))])
    IN FAdd(p, FSum(p, bt), FSum(p, tt))

(***************************************************************************)
(* The DEEP composition at a domain point x, from opened values.           *)
(* q : [z, ge, go, gam]  gam in column-major order                         *)
(***************************************************************************)
DeepAt(F, A, T, x, te, ce, co, ood, h1, h2, q) ==
    LET p  == F.p
        g  == Root(F, T)
        nf == Len(A.offs)
        di == FInv(p, FSub(p, x, FMul(p, q.z, q.z)))
        iv == TLCEval([k \in 1..nf |-> FInv(p, FSub(p, x, FMul(p, q.z, FPow(p, g, A.offs[k]))))])
        tt == TLCEval([j \in 1..A.cols |->
                FSum(p, TLCEval([k \in 1..nf |->
                   FMul(p, q.gam[(j - 1) * nf + k], FMul(p, FSub(p, te[j], ood[k][j]), iv[k]))]))])
    IN FAdd(p, FSum(p, tt),
            FMul(p, di, FAdd(p, FMul(p, q.ge, FSub(p, ce, h1)), FMul(p, q.go, FSub(p, co, h2)))))
\* some denominator above vanishes: no proof can be made or checked (negligible in large fields)
DeepUndef(F, A, T, x, z) ==
    \/ x = FMul(F.p, z, z)
    \/ \E k \in 1..Len(A.offs) : x = FMul(F.p, z, FPow(F.p, Root(F, T), A.offs[k]))

\* one folding step: values at x and -x, challenge b
Fold(F, v, vs, b, x) ==
    LET p  == F.p
        h  == FInv(p, "2")
    IN FMul(p, h, FAdd(p, FAdd(p, v, vs), FMul(p, b, FMul(p, FSub(p, v, vs), FInv(p, x)))))
NLayers(T) == Max2(1, Log2(T))
=============================================================================
