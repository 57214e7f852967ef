---------------------------- MODULE CairoMachine ----------------------------
(***************************************************************************)
(* The Cairo machine (Cairo whitepaper, sections 4 and 5): instruction     *)
(* words, the deterministic machine over a read-only memory, the row of    *)
(* the execution trace that stands for a step, and the relation between    *)
(* consecutive rows.  Values are field elements; memory is a function from *)
(* addresses (TLA+ integers) to values.                                    *)
(***************************************************************************)
EXTENDS CairoAir, FiniteSets, FiniteSetsExt

P == "800000000000011000000000000000000000000000000000000000000000001"
FE(n) == FInt(P, n)
\* the value as an address or a register, -1 when it is not a small number
Small(v) == IF NLt(v, "20000000") THEN ToInt(v) ELSE -1

(***************************************************************************)
(* Instructions.  I : [dr, r0, s1, rl, pu, au, oc, o] with flag groups as  *)
(* numbers and o the three signed offsets.                                 *)
(***************************************************************************)
DstRegs == {0, 1}
Op0Regs == {0, 1}
Op1Srcs == {0, 1, 2, 4}
ResLogics == {0, 1, 2}
PcUpdates == {0, 1, 2, 4}
ApUpdates == {0, 1, 2}
Opcodes == {0, 1, 2, 4}
\* the sixteen-bit flag word
FlagWord(I) == I.dr + 2 * I.r0 + 4 * I.s1 + 32 * I.rl + 128 * I.pu + 1024 * I.au + 4096 * I.oc
WordOf(fw, o) == NAdd(NMul(Hex(fw), Pow2(48)),
                 NAdd(NMul(Hex(o[3] + 32768), Pow2(32)), NAdd(NMul(Hex(o[2] + 32768), Pow2(16)), Hex(o[1] + 32768))))
Encode(I) == WordOf(FlagWord(I), I.o)
Groups(w) ==
    LET fw == ToInt(NShr(w, 48))
        of(k) == ToInt(NLow(NShr(w, 16 * k), 16)) - 32768
    IN [dr |-> fw % 2, r0 |-> (fw \div 2) % 2, s1 |-> (fw \div 4) % 8, rl |-> (fw \div 32) % 4,
        pu |-> (fw \div 128) % 8, au |-> (fw \div 1024) % 4, oc |-> (fw \div 4096) % 8, o |-> <<of(0), of(1), of(2)>>]
\* an instruction word has 63 bits; the machine is undefined on anything longer
IsWord(w) == NBits(w) <= 63
Valid(I) == /\ I.s1 \in Op1Srcs /\ I.rl \in ResLogics /\ I.pu \in PcUpdates /\ I.au \in ApUpdates /\ I.oc \in Opcodes
\* combinations of valid groups the machine leaves undefined
Defined(I) == /\ Valid(I)
              /\ I.pu = 4 => I.rl = 0 /\ I.oc = 0 /\ I.au # 1
              /\ I.oc = 1 => I.au = 0
FlagBits(I) == TLCEval([k \in 1..16 |-> IF (FlagWord(I) \div 2 ^ (k - 1)) % 2 = 1 THEN "1" ELSE "0"])
InstSize(I) == IF I.s1 = 1 THEN 2 ELSE 1

(***************************************************************************)
(* One step.  r : [pc, ap, fp].  An access outside the memory, or to an    *)
(* address that is not a small number, makes the step fail (ok = FALSE).   *)
(***************************************************************************)
Bad == [ok |-> FALSE]
DstAddr(I, r) == (IF I.dr = 0 THEN r.ap ELSE r.fp) + I.o[1]
Op0Addr(I, r) == (IF I.r0 = 0 THEN r.ap ELSE r.fp) + I.o[2]
Op1Addr(I, r, v0) == CASE I.s1 = 0 -> IF Small(v0) = -1 THEN -40000 ELSE Small(v0) + I.o[3]
                       [] I.s1 = 1 -> r.pc + I.o[3]
                       [] I.s1 = 2 -> r.fp + I.o[3]
                       [] I.s1 = 4 -> r.ap + I.o[3]
ResOf(I, v0, v1) == CASE I.rl = 0 -> v1 [] I.rl = 1 -> FAdd(P, v0, v1) [] I.rl = 2 -> FMul(P, v0, v1)
Step(mem, r) ==
    IF r.pc \notin DOMAIN mem \/ ~IsWord(mem[r.pc]) THEN Bad
    ELSE LET I == Groups(mem[r.pc])
         IN IF ~Defined(I) THEN Bad
            ELSE LET da == DstAddr(I, r)
                     a0 == Op0Addr(I, r)
                 IN IF {da, a0} \subseteq DOMAIN mem
                    THEN LET a1 == Op1Addr(I, r, mem[a0])
                         IN IF a1 \notin DOMAIN mem THEN Bad
                            ELSE LET d   == mem[da]
                                     v0  == mem[a0]
                                     v1  == mem[a1]
                                     res == IF I.pu = 4 THEN "0" ELSE ResOf(I, v0, v1)
                                     sz  == InstSize(I)
                                     pcn == CASE I.pu = 0 -> FE(r.pc + sz)
                                              [] I.pu = 1 -> res
                                              [] I.pu = 2 -> FAdd(P, FE(r.pc), res)
                                              [] I.pu = 4 -> IF d = "0" THEN FE(r.pc + sz) ELSE FAdd(P, FE(r.pc), v1)
                                     apn == CASE I.oc = 1 -> FE(r.ap + 2)
                                              [] I.au = 0 -> FE(r.ap)
                                              [] I.au = 1 -> FAdd(P, FE(r.ap), res)
                                              [] I.au = 2 -> FE(r.ap + 1)
                                     fpn == CASE I.oc = 1 -> FE(r.ap + 2) [] I.oc = 2 -> d [] OTHER -> FE(r.fp)
                                 IN [ok |-> /\ I.oc = 1 => d = FE(r.fp) /\ v0 = FE(r.pc + sz)
                                            /\ I.oc = 4 => d = res,
                                     I |-> I, da |-> da, a0 |-> a0, a1 |-> a1, d |-> d, v0 |-> v0, v1 |-> v1, res |-> res,
                                     next |-> [pc |-> Small(pcn), ap |-> Small(apn), fp |-> Small(fpn)]]
                    ELSE Bad

(***************************************************************************)
(* The row of the execution trace for a step s = Step(mem, r), columns 0   *)
(* to 33.  In a conditional jump the result column holds what makes the    *)
(* product with dst equal to one; when dst is zero it may hold anything    *)
(* (AnyRes below).                                                         *)
(***************************************************************************)
StepRow(mem, r, s, last) ==
    LET I   == s.I
        res == IF I.pu = 4 THEN FInv(P, s.d) ELSE s.res
        t0  == IF I.pu = 4 THEN s.d ELSE "0"
    IN FlagBits(I) \o
       << res, FE(r.ap), FE(r.fp), FE(r.pc), FE(s.da), FE(s.a0), FE(s.a1), mem[r.pc], s.d, s.v0, s.v1,
          Hex(I.o[1] + 32768), Hex(I.o[2] + 32768), Hex(I.o[3] + 32768),
          t0, FMul(P, t0, res), FMul(P, s.v0, s.v1), IF last THEN "0" ELSE "1" >>
AnyRes(s) == s.I.pu = 4 /\ s.d = "0"
\* columns 34 to 42 for the i-th row (from 0): the limbs of the i-th range-checked cell
RcRow(mem, seg, i) ==
    LET v == IF seg[1] + i < seg[2] THEN mem[seg[1] + i] ELSE "0"
    IN TLCEval([k \in 1..9 |-> IF k = 9 THEN v ELSE NLow(NShr(v, 16 * (k - 1)), 16)])

(***************************************************************************)
(* What the row relation means: the row is a correctly decoded instruction *)
(* with correct addresses, products and result, and the next row holds the *)
(* registers the machine moves to.  All on field elements, whatever they   *)
(* are.  Defined only for flags that are bits with valid groups.           *)
(***************************************************************************)
RowGroups(row) ==
    LET b(k) == IF row[k + 1] = "1" THEN 1 ELSE 0
    IN [dr |-> b(0), r0 |-> b(1), s1 |-> b(2) + 2 * b(3) + 4 * b(4), rl |-> b(5) + 2 * b(6),
        pu |-> b(7) + 2 * b(8) + 4 * b(9), au |-> b(10) + 2 * b(11), oc |-> b(12) + 2 * b(13) + 4 * b(14)]
BitsOk(row) == (\A k \in 1..15 : row[k] \in {"0", "1"}) /\ row[16] = "0"
RowRel(row, nxt) ==
    LET c(k) == row[k + 1]
        n(k) == nxt[k + 1]
        I == RowGroups(row)
        Add(a, b) == FAdd(P, a, b)
        off(k) == FSub(P, c(k), "8000")
        pcs == Add(c(kPc), IF I.s1 = 1 THEN "2" ELSE "1")
        res == CASE I.rl = 0 -> c(kOp1) [] I.rl = 1 -> Add(c(kOp0), c(kOp1)) [] I.rl = 2 -> FMul(P, c(kOp0), c(kOp1))
        bits == FSum(P, TLCEval([k \in 1..15 |-> IF c(k - 1) = "1" THEN Pow2(47 + k) ELSE "0"]))
    IN /\ c(kInst) = Add(Add(bits, c(kOffDst)), Add(FMul(P, Pow2(16), c(kOffOp0)), FMul(P, Pow2(32), c(kOffOp1))))
       /\ c(kDstA) = Add(IF I.dr = 0 THEN c(kAp) ELSE c(kFp), off(kOffDst))
       /\ c(kOp0A) = Add(IF I.r0 = 0 THEN c(kAp) ELSE c(kFp), off(kOffOp0))
       /\ c(kOp1A) = Add(CASE I.s1 = 0 -> c(kOp0) [] I.s1 = 1 -> c(kPc) [] I.s1 = 2 -> c(kFp) [] I.s1 = 4 -> c(kAp), off(kOffOp1))
       /\ c(kMul) = FMul(P, c(kOp0), c(kOp1))
       /\ c(kT0) = (IF I.pu = 4 THEN c(kDst) ELSE "0")
       /\ c(kT1) = FMul(P, c(kT0), c(kRes))
       /\ I.pu # 4 => c(kRes) = res
       /\ CASE I.pu = 0 -> n(kPc) = pcs
            [] I.pu = 1 -> n(kPc) = c(kRes)
            [] I.pu = 2 -> n(kPc) = Add(c(kPc), c(kRes))
            \* with the hint res = 1 / dst the first disjunct is impossible for dst # 0
            [] I.pu = 4 -> IF c(kDst) = "0" THEN n(kPc) = pcs
                           ELSE n(kPc) = Add(c(kPc), c(kOp1)) /\ (c(kT1) = "1" \/ n(kPc) = pcs)
       /\ n(kAp) = (CASE I.oc = 1 -> Add(c(kAp), "2") [] I.au = 0 -> c(kAp) [] I.au = 1 -> Add(c(kAp), c(kRes)) [] I.au = 2 -> Add(c(kAp), "1"))
       /\ n(kFp) = (CASE I.oc = 1 -> Add(c(kAp), "2") [] I.oc = 2 -> c(kDst) [] OTHER -> c(kFp))
       /\ I.oc = 1 => c(kDst) = c(kFp) /\ c(kOp0) = pcs
       /\ I.oc = 4 => c(kDst) = c(kRes)

(***************************************************************************)
(* The memory and offset arguments, at the level of what they mean.        *)
(* acc : all accesses of the trace; the last ones, as many as there are    *)
(* public cells, must be dummies <<0, 0>>.                                 *)
(***************************************************************************)
Accesses(rows) == TLCEval([i \in 1..(4 * Len(rows)) |->
    LET r == rows[((i - 1) \div 4) + 1]
        k == ((i - 1) % 4) + 1
    IN <<r[CairoAddrCols[k] + 1], r[CairoValCols[k] + 1]>>])
\* a set of numbers without a gap
GapFree(S) == \A a \in S : NAdd(a, "1") \in S \/ \A b \in S : NLe(b, a)
MemoryOk(acc, pm) ==
    LET n == Len(acc) - Len(pm)
        cells == {acc[i] : i \in 1..n} \cup {pm[k] : k \in 1..Len(pm)}
        addrs == {c[1] : c \in cells}
    IN /\ Cardinality(cells) = Cardinality(addrs)
       /\ GapFree(addrs)
       /\ \A i \in (n + 1)..Len(acc) : acc[i] = <<"0", "0">>
OffsetsOk(offs, lo, hi) ==
    LET S == {offs[i] : i \in 1..Len(offs)}
    IN /\ GapFree(S) /\ lo \in S /\ hi \in S
       /\ \A a \in S : NLe(lo, a) /\ NLe(a, hi)
=============================================================================
