----------------------------- MODULE CairoFrames -----------------------------
(***************************************************************************)
(* Pairs of consecutive rows, right and wrong, for the Cairo constraints.  *)
(*                                                                         *)
(* A right pair is built from free cells by deriving the others; a wrong   *)
(* one by spoiling one derived cell and deriving everything after it from  *)
(* the spoiled value, so that as a rule a single constraint is broken; or  *)
(* by changing one cell of a right pair; or by taking flags that are not   *)
(* bits.                                                                   *)
(*                                                                         *)
(* PROFILE "step": instruction constraints (auxiliary columns all zero),   *)
(* one behaviour per combination of flag groups.  "aux": the memory and    *)
(* offset arguments (selector zero).                                       *)
(* ALL = 1: every case, otherwise a sample of the single-cell changes.     *)
(***************************************************************************)
EXTENDS CairoMachine, Env

PROFILE == IOEnv.PROFILE
ALL == IOEnv.ALL = "1"
Add(a, b) == FAdd(P, a, b)
Sub(a, b) == FSub(P, a, b)
Mul(a, b) == FMul(P, a, b)
Inv(a) == FInv(P, a)

\* any field element; anything but zero
Elem(q) == LET w == Pick(q \o <<1>>, 5)
           IN CASE w = 0 -> PickOf(q \o <<2>>, <<"0", "1", "2", "8000", "ffff", "10000", "800000000000011000000000000000000000000000000000000000000000000">>)
                [] w = 1 -> Hex(Pick(q \o <<3>>, 70000))
                [] OTHER -> FRed(P, NatBe(BSub(Hash(q \o <<4>>), 0, 32)))
NonZero(q) == LET v == Elem(q) IN IF v = "0" THEN "5" ELSE v
Leap(q) == LET v == Elem(q) IN IF v \in {"0", "1"} THEN "7" ELSE v
Off16(q) == IF Pick(q \o <<1>>, 4) = 0 THEN PickOf(q \o <<2>>, <<"0", "1", "7fff", "8000", "8001", "fffe", "ffff">>)
            ELSE Hex(Pick(q \o <<3>>, 65536))

Blank(T, rc) == [pc_init |-> "0", ap_init |-> "0", fp_init |-> "0", pc_final |-> "0", ap_final |-> "0", rcmin |-> <<"0">>, rcmax |-> <<"0">>,
                 rc |-> IF rc THEN <<"1", "2">> ELSE <<>>, out |-> <<>>, pm |-> <<>>, steps |-> "1"]

(***************************************************************************)
(* Steps.                                                                  *)
(***************************************************************************)
Spoils == <<"inst", "dsta", "op0a", "op1a", "op0", "dst", "mul", "res", "t0", "t1", "npc", "nap", "nfp">>
\* the cells chosen freely
Free(q) == TLCEval([ap |-> Elem(q \o <<1>>), fp |-> Elem(q \o <<2>>), pc |-> Elem(q \o <<3>>),
                    oD |-> Off16(q \o <<4>>), oA |-> Off16(q \o <<5>>), oB |-> Off16(q \o <<6>>),
                    op0 |-> Elem(q \o <<7>>), op1 |-> NonZero(q \o <<8>>),
                    dst0 |-> IF Pick(q \o <<9>>, 3) = 0 THEN "0" ELSE NonZero(q \o <<10>>),
                    res |-> Elem(q \o <<11>>), dst |-> Elem(q \o <<12>>),
                    limbs |-> [k \in 1..8 |-> Off16(q \o <<13, k>>)]])
\* f: sixteen flag values; returns [row, nxt]
Derive(f, fr, rc, spoil, by) ==
    LET F(k) == f[k + 1]
        D(n, v) == IF spoil = n THEN Add(v, by) ELSE v
        ap == fr.ap   fp == fr.fp   pc == fr.pc
        oD == fr.oD   oA == fr.oA   oB == fr.oB
        size == Add(F(2), "1")
        pcs == Add(pc, size)
        op0 == IF F(12) = "0" THEN fr.op0 ELSE D("op0", pcs)
        op1 == fr.op1
        mul == D("mul", Mul(op0, op1))
        raw == Add(Add(Mul(F(5), Add(op0, op1)), Mul(F(6), mul)), Mul(Sub(Sub(Sub("1", F(5)), F(6)), F(9)), op1))
        \* a conditional jump starts from dst, anything else from res
        dst0 == fr.dst0
        res == IF F(9) = "1" THEN (IF dst0 = "0" THEN fr.res ELSE D("res", Inv(dst0))) ELSE D("res", Mul(raw, Inv(Sub("1", F(9)))))
        dst == CASE F(9) = "1" -> dst0
                 [] F(9) # "0" -> Inv(IF res = "0" THEN "1" ELSE res)
                 [] F(14) # "0" -> D("dst", res)
                 [] F(12) # "0" -> D("dst", fp)
                 [] OTHER -> fr.dst
        t0 == D("t0", Mul(F(9), dst))
        t1 == D("t1", Mul(t0, res))
        kk == Add(t0, Sub("1", F(9)))
        rhs == Add(Add(Add(Mul(Sub(Sub(Sub("1", F(7)), F(8)), F(9)), pcs), Mul(F(7), res)), Mul(F(8), Add(pc, res))), Mul(t0, Add(pc, op1)))
        npc == D("npc", IF kk = "0" THEN pcs ELSE Mul(rhs, Inv(kk)))
        nap == D("nap", Add(Add(ap, Mul(F(10), res)), Add(F(11), Mul("2", F(12)))))
        nfp == D("nfp", Add(Add(Mul(F(13), dst), Mul(F(12), Add(ap, "2"))), Mul(Sub(Sub("1", F(13)), F(12)), fp)))
        mix(b) == Add(Mul(b, fp), Mul(Sub("1", b), ap))
        dsta == D("dsta", Sub(Add(mix(F(0)), oD), "8000"))
        op0a == D("op0a", Sub(Add(mix(F(1)), oA), "8000"))
        op1a == D("op1a", Sub(Add(Add(Add(Mul(F(2), pc), Mul(F(4), ap)), Add(Mul(F(3), fp), Mul(Sub(Sub(Sub("1", F(2)), F(4)), F(3)), op0))), oB), "8000"))
        bits == FSum(P, TLCEval([k \in 1..15 |-> Mul(Pow2(47 + k), f[k])]))
        inst == D("inst", Add(Add(bits, oD), Add(Mul("10000", oA), Mul("100000000", oB))))
        limbs == fr.limbs
        val == FSum(P, TLCEval([k \in 1..8 |-> Mul(Pow2(16 * (k - 1)), limbs[k])]))
    IN TLCEval(<< f \o <<res, ap, fp, pc, dsta, op0a, op1a, inst, dst, op0, op1, oD, oA, oB, t0, t1, mul, "1">>
                    \o (IF rc THEN limbs \o <<val>> ELSE <<>>),
                  [k \in 1..(IF rc THEN 43 ELSE 34) |->
                     CASE k = kPc + 1 -> npc [] k = kAp + 1 -> nap [] k = kFp + 1 -> nfp
                       [] k = kSel + 1 -> "0" [] OTHER -> "0"] >>)

Combos == {c \in (0..1) \X (0..1) \X Op1Srcs \X ResLogics \X PcUpdates \X ApUpdates \X Opcodes : TRUE}
ComboSeq == SetToSeq(Combos)
GroupsOf(c) == [dr |-> c[1], r0 |-> c[2], s1 |-> c[3], rl |-> c[4], pu |-> c[5], au |-> c[6], oc |-> c[7]]

\* every combination of valid groups, then random flag words with overlapping flags
Bits(n) == IF n < Len(ComboSeq) THEN FlagBits(GroupsOf(ComboSeq[n + 1]))
           ELSE TLCEval([k \in 1..16 |-> IF k = 16 THEN "0" ELSE Hex(Pick(<<n, k, 60>>, 2))])
IsDefined(n) == n < Len(ComboSeq) /\ Defined(GroupsOf(ComboSeq[n + 1]))
StepPairs(n) ==
    LET f == Bits(n)
        rc == Pick(<<n, 61>>, 2) = 0
        w == IF rc THEN 43 ELSE 34
        fr == Free(<<n>>)
        base == Derive(f, fr, rc, "none", "0")
        Cell(pr, r, c, v) == [pr EXCEPT ![r + 1] = [@ EXCEPT ![c + 1] = v]]
        flip(r, c, d) == Cell(base, r, c, Add(base[r + 1][c + 1], d))
        cells == IF ALL THEN [k \in 1..(2 * w) |-> <<(k - 1) \div w, (k - 1) % w>>]
                 ELSE [k \in 1..4 |-> IF k = 4 THEN <<1, PickOf(<<n, 62>>, <<kPc, kAp, kFp>>)>> ELSE <<0, Pick(<<n, k, 63>>, w)>>]
        fs == IF ALL THEN 0..15 ELSE {Pick(<<n, 64>>, 16)}
        nb == SetToSortSeq(fs, <)
    IN << base >>
       \o TLCEval([k \in 1..Len(Spoils) |-> Derive(f, fr, rc, Spoils[k], NonZero(<<n, k, 65>>))])
       \o TLCEval([k \in 1..Len(nb) |->
            Derive([f EXCEPT ![nb[k] + 1] = IF nb[k] = 15 THEN "1" ELSE PickOf(<<n, k, 66>>, <<"2", Sub("0", "1"), "3", Elem(<<n, k, 67>>)>>)], fr, rc, "none", "0")])
       \o TLCEval([k \in 1..Len(cells) |-> flip(cells[k][1], cells[k][2], NonZero(<<n, k, 68>>))])
       \* a selector that is neither zero nor one hides nothing
       \o << Cell(Derive(f, fr, rc, PickOf(<<n, 69>>, Spoils), "1"), 0, kSel, "2"),
             Cell(Derive(f, fr, rc, PickOf(<<n, 69>>, Spoils), "1"), 0, kSel, "0") >>

(***************************************************************************)
(* The memory and offset arguments.  kind: what is wrong; j: where.        *)
(***************************************************************************)
\* s numbers starting from a, each the one before or one more; at j the step is by
Walk(q, a, s, j, by) ==
    LET RECURSIVE W(_)
        W(k) == IF k = 1 THEN <<a>>
                ELSE LET w == W(k - 1)
                     IN Append(w, Add(w[k - 1], IF k = j THEN by ELSE Hex(Pick(q \o <<k>>, 2))))
    IN TLCEval(W(s))
\* values that change only where the address does; at j also where it does not
Values(q, adr, j) ==
    LET RECURSIVE W(_)
        W(k) == IF k = 1 THEN <<Elem(q \o <<1>>)>>
                ELSE LET w == W(k - 1)
                     IN Append(w, IF k = j \/ adr[k] = Add(adr[k - 1], "1") THEN Elem(q \o <<k>>) ELSE w[k - 1])
    IN TLCEval(W(Len(adr)))
\* running product from p0 of num/den, at j multiplied by (1 + by)
Chain(p0, num, den, j, by) ==
    LET RECURSIVE W(_)
        W(k) == IF k = 1 THEN <<p0>>
                ELSE LET w == W(k - 1)
                     IN Append(w, Mul(Mul(w[k - 1], Mul(num[k], Inv(den[k]))), IF k = j THEN Add("1", by) ELSE "1"))
    IN TLCEval(W(Len(num)))
\* 8 sorted cells, 6 sorted offsets in two rows
AuxPair(n, kind, j) ==
    LET q == <<n, 70>>
        ch == <<Elem(q \o <<1>>), FRed(P, NatBe(BSub(Hash(q \o <<2>>), 0, 32))), FRed(P, NatBe(BSub(Hash(q \o <<3>>), 0, 32)))>>
        rc == Pick(q \o <<4>>, 2) = 0
        sa == Walk(q \o <<5>>, Elem(q \o <<6>>), 8, IF kind \in {"incr", "same"} THEN j ELSE 0,
                   IF kind = "incr" THEN PickOf(q \o <<7>>, <<"2", Sub("0", "1"), "3", Leap(q \o <<8>>)>>) ELSE "0")
        sv == IF kind = "incr" THEN [k \in 1..8 |-> Elem(q \o <<9>>)] ELSE Values(q \o <<10>>, sa, IF kind = "same" THEN j ELSE 0)
        a == [k \in 1..8 |-> Elem(q \o <<11, k>>)]
        v == [k \in 1..8 |-> Elem(q \o <<12, k>>)]
        key(x, y) == Sub(ch[2], Add(x, Mul(ch[1], y)))
        mp == Chain(NonZero(q \o <<13>>), TLCEval([k \in 1..8 |-> key(a[k], v[k])]), TLCEval([k \in 1..8 |-> key(sa[k], sv[k])]),
                    IF kind = "perm" THEN j ELSE 0, NonZero(q \o <<14>>))
        so == Walk(q \o <<15>>, Off16(q \o <<16>>), 6, IF kind = "oincr" THEN j ELSE 0,
                   PickOf(q \o <<17>>, <<"2", Sub("0", "1"), "5", Leap(q \o <<18>>)>>))
        o == [k \in 1..6 |-> Off16(q \o <<19, k>>)]
        op == Chain(NonZero(q \o <<20>>), TLCEval([k \in 1..6 |-> Sub(ch[3], o[k])]), TLCEval([k \in 1..6 |-> Sub(ch[3], so[k])]),
                    IF kind = "operm" THEN j ELSE 0, NonZero(q \o <<21>>))
        idx(S, c) == CHOOSE k \in 1..Len(S) : S[k] = c
        mainrow(r) == TLCEval([k \in 1..(IF rc THEN 43 ELSE 34) |->
            CASE k - 1 \in ToSet(CairoAddrCols) -> a[4 * r + idx(CairoAddrCols, k - 1)]
              [] k - 1 \in ToSet(CairoValCols) -> v[4 * r + idx(CairoValCols, k - 1)]
              [] k - 1 \in ToSet(CairoOffCols) -> o[3 * r + idx(CairoOffCols, k - 1)]
              [] OTHER -> "0"])
        auxrow(r) == TLCEval(<<so[3 * r + 1], so[3 * r + 2], so[3 * r + 3]>> \o SubSeq(sa, 4 * r + 1, 4 * r + 4) \o SubSeq(sv, 4 * r + 1, 4 * r + 4)
                     \o SubSeq(mp, 4 * r + 1, 4 * r + 4) \o SubSeq(op, 3 * r + 1, 3 * r + 3))
    IN [rc |-> rc, ch |-> ch, rows |-> <<mainrow(0) \o auxrow(0), mainrow(1) \o auxrow(1)>>]
\* the constraints between the two rows reach cells 2..5 (2..4 for offsets)
AuxKinds == {<<"none", 2>>} \cup ({"incr", "same", "perm"} \X (2..5)) \cup ({"oincr", "operm"} \X (2..4)) \cup {<<"incr", 6>>, <<"perm", 7>>, <<"oincr", 5>>}
AuxKindSeq == SetToSeq(AuxKinds)

(***************************************************************************)
(* One behaviour: a pair is generated, then its variants, then printed.    *)
(***************************************************************************)
VARIABLES n, ph, fs
vars == <<n, ph, fs>>
Ch0 == <<"3", "123456789", "abcdef">>
Why(A, rows, ch) == LET ev == CairoEval(P, A, rows, ch) IN TLCEval({k \in 1..Len(ev) : ev[k] # "0"})
StepAir == CairoAirOf(Blank(2, Pick(<<n, 61>>, 2) = 0), 2)
Zeros == [k \in 1..18 |-> "0"]
Init == /\ n \in 0..(SIZE - 1) /\ ph = "gen" /\ fs = <<>>
\* (a definition local to an action is evaluated at each use, one local to an expression once)
GenStep == /\ ph = "gen" /\ PROFILE = "step"
           /\ fs' = TLCEval(LET ps == StepPairs(n)
                                A == StepAir
                            IN [k \in 1..Len(ps) |-> [rows |-> ps[k], why |-> Why(A, <<ps[k][1] \o Zeros, ps[k][2] \o Zeros>>, Ch0)]])
           /\ ph' = "out" /\ UNCHANGED n
GenAux == /\ ph = "gen" /\ PROFILE = "aux"
          /\ fs' = TLCEval(LET c == AuxKindSeq[(n % Len(AuxKindSeq)) + 1]
                               x == AuxPair(n, c[1], c[2])
                           IN <<[kind |-> c, x |-> x, rows |-> x.rows, why |-> Why(CairoAirOf(Blank(2, x.rc), 2), x.rows, x.ch)]>>)
          /\ ph' = "out" /\ UNCHANGED n
\* cells in which a pair differs from the first
Diff(a, b) == LET D == {<<r, c>> \in (1..2) \X (1..Len(a[1])) : a[r][c] # b[r][c]}
                  s == SetToSeq(D)
              IN [k \in 1..Len(s) |-> [row |-> s[k][1] - 1, col |-> s[k][2] - 1, v |-> b[s[k][1]][s[k][2]]]]
ChRec(ch) == [alpha |-> ch[1], zmem |-> ch[2], zrc |-> ch[3]]
Out == /\ ph = "out"
       /\ IF PROFILE = "step"
          THEN Emit([k |-> "sat", id |-> n, pub |-> Blank(2, StepAir.rc), ch |-> ChRec(Ch0), main |-> fs[1].rows, aux |-> <<Zeros, Zeros>>,
                     cases |-> [j \in 1..Len(fs) |-> Diff(fs[1].rows, fs[j].rows)], why |-> [j \in 1..Len(fs) |-> fs[j].why], defined |-> IsDefined(n)])
          ELSE LET w == IF fs[1].x.rc THEN 43 ELSE 34
               IN Emit([k |-> "sat", id |-> n, pub |-> Blank(2, fs[1].x.rc), ch |-> ChRec(fs[1].x.ch),
                        main |-> [r \in 1..2 |-> SubSeq(fs[1].rows[r], 1, w)], aux |-> [r \in 1..2 |-> SubSeq(fs[1].rows[r], w + 1, w + 18)],
                        cases |-> <<<<>>>>, why |-> <<fs[1].why>>, kind |-> fs[1].kind[1]])
       /\ ph' = "done" /\ UNCHANGED <<n, fs>>
Next == GenStep \/ GenAux \/ Out
Spec == Init /\ [][Next]_vars

\* the instruction constraints say exactly what a step of the machine is
MeansStep == PROFILE = "step" /\ ph = "out" =>
    \A k \in 1..Len(fs) :
       LET row == fs[k].rows[1]
       IN row[kSel + 1] # "0" /\ (BitsOk(row) => Defined(RowGroups(row))) =>
             ((fs[k].why \cap (1..31) = {}) <=> (BitsOk(row) /\ RowRel(row, fs[k].rows[2])))
\* a pair built right satisfies everything, a spoiled one does not
Spoiled == PROFILE = "step" /\ ph = "out" /\ IsDefined(n) => fs[1].why = {}
\* the argument constraints, pair by pair: consecutive, single-valued, running products
MeansAux == PROFILE = "aux" /\ ph = "out" =>
    LET k == fs[1].kind[1]
        j == fs[1].kind[2]
        near == IF k \in {"oincr", "operm"} THEN j <= 4 ELSE j <= 5
    IN (k # "none" /\ near /\ k # "same") => fs[1].why # {}
=============================================================================
