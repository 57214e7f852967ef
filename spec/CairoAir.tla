------------------------------ MODULE CairoAir ------------------------------
(***************************************************************************)
(* The Cairo arithmetization: transition and boundary constraints,         *)
(* auxiliary columns.  Rows are sequences of field elements, main columns  *)
(* first (numbered from 0 by the constants below).                         *)
(*                                                                         *)
(* A : [kind |-> "cairo", rc, T, pub, cols, aux, nch, offs, degs, exs,     *)
(*      dbound]; pub as the harness reports public inputs: numbers in      *)
(*      hexadecimal, rc/out/rcmin/rcmax sequences that may be empty, pm a  *)
(*      sequence of <<address, value>>.                                    *)
(* ch : <<alpha_memory, z_memory, z_range_check>>                          *)
(***************************************************************************)
EXTENDS PrimeField, TLC, SequencesExt

kRes == 16   kAp == 17   kFp == 18   kPc == 19
kDstA == 20  kOp0A == 21  kOp1A == 22
kInst == 23  kDst == 24  kOp0 == 25  kOp1 == 26
kOffDst == 27  kOffOp0 == 28  kOffOp1 == 29
kT0 == 30  kT1 == 31  kMul == 32  kSel == 33
kRc0 == 34  kRcValue == 42
CairoAddrCols == <<kPc, kDstA, kOp0A, kOp1A>>
CairoValCols == <<kInst, kDst, kOp0, kOp1>>
CairoOffCols == <<kOffDst, kOffOp0, kOffOp1>>
MainWidth(A) == IF A.rc THEN 43 ELSE 34
\* auxiliary columns
kSortedOff(A, k) == MainWidth(A) + k          \* k in 0..2
kSortedAddr(A, k) == MainWidth(A) + 3 + k     \* k in 0..3
kSortedVal(A, k) == MainWidth(A) + 7 + k
kMemPerm(A, k) == MainWidth(A) + 11 + k
kOffPerm(A, k) == MainWidth(A) + 15 + k

CairoAirOf(pub, T) ==
    LET rc == Len(pub.rc) = 2
    IN [kind |-> "cairo", rc |-> rc, T |-> T, pub |-> pub,
        cols |-> (IF rc THEN 43 ELSE 34) + 18, aux |-> 18, nch |-> 3, offs |-> <<0, 1>>, dbound |-> 2,
        degs |-> TLCEval([k \in 1..(IF rc THEN 50 ELSE 49) |->
                   IF k = 16 \/ k = 50 THEN 1 ELSE IF k \in 17..31 THEN 3 ELSE 2]),
        exs |-> TLCEval([k \in 1..(IF rc THEN 50 ELSE 49) |->
                   IF k \in (21..24) \cup {35, 39, 43, 46} THEN 1 ELSE 0])]

\* one row of transition constraints, in order
CairoEval(p, A, rows, ch) ==
    LET c(k)  == rows[1][k + 1]
        n(k)  == rows[2][k + 1]
        Add(a, b) == FAdd(p, a, b)
        Sub(a, b) == FSub(p, a, b)
        Mul(a, b) == FMul(p, a, b)
        bit(k) == Mul(c(k), Sub(c(k), "1"))
        b15   == "8000"
        size  == Add(c(2), "1")
        reg(f, off, addr) == Sub(Sub(Add(Add(Mul(c(f), c(kFp)), Mul(Sub("1", c(f)), c(kAp))), c(off)), b15), c(addr))
        word  == Add(Add(c(kOffDst), Mul("10000", c(kOffOp0))),
                     Add(Mul("100000000", c(kOffOp1)),
                         Mul("1000000000000", FSum(p, [k \in 1..15 |-> Mul(Pow2(k - 1), c(k - 1))]))))
        step(s, f) == Mul(c(kSel), f)
        \* a, b consecutive in sorted order: b is a or a + 1
        incr(a, b) == Mul(Sub(a, b), Sub(Sub(b, a), "1"))
        cons(a, b, va, vb) == Mul(Sub(va, vb), Sub(Sub(b, a), "1"))
        key(a, v) == Sub(ch[2], Add(a, Mul(ch[1], v)))
        perm(q, pq, a, v, as, vs) == Sub(Mul(key(as, vs), q), Mul(key(a, v), pq))
        operm(q, pq, a, as) == Sub(Mul(Sub(ch[3], as), q), Mul(Sub(ch[3], a), pq))
        sa(k) == kSortedAddr(A, k)
        sv(k) == kSortedVal(A, k)
        mp(k) == kMemPerm(A, k)
        so(k) == kSortedOff(A, k)
        op(k) == kOffPerm(A, k)
        base == <<
          \* instruction
          Sub(word, c(kInst)),
          \* operand addresses
          reg(0, kOffDst, kDstA),
          reg(1, kOffOp0, kOp0A),
          Sub(Add(Add(Add(Mul(c(2), c(kPc)), Mul(c(4), c(kAp))),
                      Add(Mul(c(3), c(kFp)), Mul(Sub(Sub(Sub("1", c(2)), c(4)), c(3)), c(kOp0)))),
                  Sub(c(kOffOp1), b15)), c(kOp1A)),
          \* next ap, next fp
          Sub(Add(Add(c(kAp), Mul(c(10), c(kRes))), Add(c(11), Mul("2", c(12)))), n(kAp)),
          Sub(Add(Add(Mul(c(13), c(kDst)), Mul(c(12), Add(c(kAp), "2"))),
                  Mul(Sub(Sub("1", c(13)), c(12)), c(kFp))), n(kFp)),
          \* next pc
          Mul(Sub(c(kT1), c(9)), Sub(n(kPc), Add(c(kPc), size))),
          Sub(Add(Mul(c(kT0), Sub(n(kPc), Add(c(kPc), c(kOp1)))), Mul(Sub("1", c(9)), n(kPc))),
              Add(Add(Mul(Sub(Sub(Sub("1", c(7)), c(8)), c(9)), Add(c(kPc), size)), Mul(c(7), c(kRes))),
                  Mul(c(8), Add(c(kPc), c(kRes))))),
          Sub(Mul(c(9), c(kDst)), c(kT0)),
          Sub(Mul(c(kT0), c(kRes)), c(kT1)),
          \* result
          Sub(c(kMul), Mul(c(kOp0), c(kOp1))),
          Sub(Add(Add(Mul(c(5), Add(c(kOp0), c(kOp1))), Mul(c(6), c(kMul))),
                  Mul(Sub(Sub(Sub("1", c(5)), c(6)), c(9)), c(kOp1))),
              Mul(Sub("1", c(9)), c(kRes))),
          \* opcodes
          Mul(c(12), Sub(c(kDst), c(kFp))),
          Mul(c(12), Sub(c(kOp0), Add(c(kPc), size))),
          Mul(c(14), Sub(c(kDst), c(kRes))) >>
        flags == [k \in 1..16 |-> IF k = 16 THEN c(15) ELSE bit(k - 1)]
        mem == << incr(c(sa(0)), c(sa(1))), incr(c(sa(1)), c(sa(2))), incr(c(sa(2)), c(sa(3))), incr(c(sa(3)), n(sa(0))),
                  cons(c(sa(0)), c(sa(1)), c(sv(0)), c(sv(1))), cons(c(sa(1)), c(sa(2)), c(sv(1)), c(sv(2))),
                  cons(c(sa(2)), c(sa(3)), c(sv(2)), c(sv(3))), cons(c(sa(3)), n(sa(0)), c(sv(3)), n(sv(0))),
                  perm(c(mp(1)), c(mp(0)), c(kDstA), c(kDst), c(sa(1)), c(sv(1))),
                  perm(c(mp(2)), c(mp(1)), c(kOp0A), c(kOp0), c(sa(2)), c(sv(2))),
                  perm(c(mp(3)), c(mp(2)), c(kOp1A), c(kOp1), c(sa(3)), c(sv(3))),
                  perm(n(mp(0)), c(mp(3)), n(kPc), n(kInst), n(sa(0)), n(sv(0))),
                  incr(c(so(0)), c(so(1))), incr(c(so(1)), c(so(2))), incr(c(so(2)), n(so(0))),
                  operm(c(op(1)), c(op(0)), c(kOffOp0), c(so(1))),
                  operm(c(op(2)), c(op(1)), c(kOffOp1), c(so(2))),
                  operm(n(op(0)), c(op(2)), n(kOffDst), n(so(0))) >>
        rcc == IF ~A.rc THEN <<>>
               ELSE << Sub(FSum(p, [k \in 1..8 |-> Mul(Pow2(16 * (k - 1)), c(kRc0 + k - 1))]), c(kRcValue)) >>
    IN TLCEval(flags \o [k \in 1..15 |-> step(0, base[k])] \o mem \o rcc)

\* product over the public memory of z - (a + alpha v)
CairoPubKey(p, A, ch) ==
    FProd(p, TLCEval([k \in 1..Len(A.pub.pm) |->
       FSub(p, ch[2], FAdd(p, A.pub.pm[k][1], FMul(p, ch[1], A.pub.pm[k][2])))]))
\* the last executed step; steps far beyond any trace are all alike
CairoLast(A) == IF NLt(A.pub.steps, "20000000") THEN ToInt(A.pub.steps) - 1 ELSE 536870911
CairoComplete(pub) == pub.steps # "0" /\ Len(pub.rcmin) = 1 /\ Len(pub.rcmax) = 1
CairoBound(p, A, ch) ==
    LET b(c, s, v) == [col |-> c, step |-> s, val |-> FRed(p, v)]
        P == A.pub
    IN << b(kPc, 0, P.pc_init), b(kAp, 0, P.ap_init), b(kPc, CairoLast(A), P.pc_final), b(kAp, CairoLast(A), P.ap_final),
          b(kMemPerm(A, 3), A.T - 1, FMul(p, FPow(p, ch[2], Len(P.pm)), FInv(p, CairoPubKey(p, A, ch)))),
          b(kOffPerm(A, 2), A.T - 1, "1"),
          b(kSortedOff(A, 0), 0, P.rcmin[1]), b(kSortedOff(A, 2), A.T - 1, P.rcmax[1]) >>

(***************************************************************************)
(* Auxiliary columns.                                                      *)
(***************************************************************************)
\* columns cs of the main trace, row by row
CairoFlatten(cols, cs) ==
    LET w == Len(cs) IN TLCEval([i \in 1..(w * Len(cols[1])) |-> cols[cs[((i - 1) % w) + 1] + 1][((i - 1) \div w) + 1]])
\* q sorted by f, stable
CairoSorted(q, f(_)) ==
    LET t == TLCEval([i \in 1..Len(q) |-> <<q[i], i>>])
        lt(a, b) == \/ NLt(f(a[1]), f(b[1]))
                    \/ f(a[1]) = f(b[1]) /\ a[2] < b[2]
        s == SortSeq(t, lt)
    IN TLCEval([i \in 1..Len(q) |-> s[i][1]])
RECURSIVE CairoRun(_, _, _, _)
CairoRun(p, num, den, n) ==
    IF n = 0 THEN <<>>
    ELSE LET r == CairoRun(p, num, den, n - 1)
         IN Append(r, FMul(p, IF n = 1 THEN "1" ELSE r[n - 1], FMul(p, num[n], FInv(p, den[n]))))
\* memory accesses, the last ones standing in for the public memory
CairoAccesses(cols) ==
    LET a == CairoFlatten(cols, CairoAddrCols)
        v == CairoFlatten(cols, CairoValCols)
    IN TLCEval([i \in 1..Len(a) |-> <<a[i], v[i]>>])
CairoWithPub(acc, pm) ==
    TLCEval([i \in 1..Len(acc) |-> IF i <= Len(acc) - Len(pm) THEN acc[i] ELSE pm[i - (Len(acc) - Len(pm))]])
CairoAux(p, A, cols, ch) ==
    LET acc == CairoAccesses(cols)
        srt == CairoSorted(CairoWithPub(acc, A.pub.pm), LAMBDA x : x[1])
        key(x) == FSub(p, ch[2], FAdd(p, x[1], FMul(p, ch[1], x[2])))
        mp  == CairoRun(p, TLCEval([i \in 1..Len(acc) |-> key(acc[i])]), TLCEval([i \in 1..Len(acc) |-> key(srt[i])]), Len(acc))
        off == CairoFlatten(cols, CairoOffCols)
        so  == CairoSorted(off, LAMBDA x : x)
        op  == CairoRun(p, TLCEval([i \in 1..Len(off) |-> FSub(p, ch[3], off[i])]),
                           TLCEval([i \in 1..Len(off) |-> FSub(p, ch[3], so[i])]), Len(off))
        T   == Len(cols[1])
        col(q, w, k) == TLCEval([r \in 1..T |-> q[(r - 1) * w + k]])
        adr == TLCEval([i \in 1..Len(srt) |-> srt[i][1]])
        vls == TLCEval([i \in 1..Len(srt) |-> srt[i][2]])
    IN <<col(so, 3, 1), col(so, 3, 2), col(so, 3, 3),
         col(adr, 4, 1), col(adr, 4, 2), col(adr, 4, 3), col(adr, 4, 4),
         col(vls, 4, 1), col(vls, 4, 2), col(vls, 4, 3), col(vls, 4, 4),
         col(mp, 4, 1), col(mp, 4, 2), col(mp, 4, 3), col(mp, 4, 4),
         col(op, 3, 1), col(op, 3, 2), col(op, 3, 3)>>

(***************************************************************************)
(* Which rows of a full trace (a sequence of rows) break some transition   *)
(* constraint, and whether a boundary constraint is broken.                *)
(***************************************************************************)
\* the constraints that reject row r
CairoBad(p, A, rows, ch, r) ==
    LET T == Len(rows)
        ev == CairoEval(p, A, <<rows[r + 1], rows[((r + 1) % T) + 1]>>, ch)
    IN {k \in 1..Len(ev) : ev[k] # "0" /\ r + A.exs[k] < T}
CairoBadRows(p, A, rows, ch) == {r \in 0..(Len(rows) - 1) : CairoBad(p, A, rows, ch, r) # {}}
CairoBadBound(p, A, rows, ch) ==
    \E k \in 1..8 : LET b == CairoBound(p, A, ch)[k]
                    IN b.step >= Len(rows) \/ rows[b.step + 1][b.col + 1] # b.val
=============================================================================
