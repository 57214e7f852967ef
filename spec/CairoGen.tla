------------------------------ MODULE CairoGen ------------------------------
(***************************************************************************)
(* Runs of the Cairo machine.  The memory is read-only but not known in    *)
(* advance: a step assigns the cells it reads, so that it can be taken,    *)
(* and later steps find them assigned.  A behaviour is one run; its end    *)
(* prints the registers of every step, the memory, the program length and  *)
(* the segments.                                                           *)
(*                                                                         *)
(* PROFILE "combo" goes through all defined combinations of flag groups,   *)
(* "mix" draws them at random, "tight" makes short runs with small traces, *)
(* "long" many steps, "far" offsets at both ends of the 16-bit range (the  *)
(* main trace is then huge), "wide" offsets in between, "full" short runs  *)
(* with much public memory that they do not touch.                         *)
(***************************************************************************)
EXTENDS CairoMachine, Env

VARIABLE k          \* the number of the run
PROFILE == IOEnv.PROFILE
Full == PROFILE = "full"
Tight == PROFILE = "tight" \/ Full
Far == PROFILE = "far"
Wide == PROFILE = "wide"
Long == PROFILE = "long"
CodeLen == IF Tight THEN 5 ELSE IF Long THEN 70 ELSE 26
\* how far a wide run reaches
Reach   == IF k % 4 = 1 THEN 1400 ELSE 230
Lim     == IF Tight THEN 18 ELSE IF Far THEN 120000 ELSE IF Wide THEN 4 * Reach + 280 ELSE IF Long THEN 400 ELSE CodeLen + 56
ApInit  == IF Tight THEN CodeLen + 4 ELSE IF Far THEN 70000 ELSE IF Wide THEN Reach + 90 ELSE CodeLen + 12
StepsOf(n) == IF Tight THEN 1 + Pick(<<n, 1>>, 4) ELSE IF Long THEN 30 + Pick(<<n, 1>>, 60) ELSE 12

\* every defined combination, as <<dr, r0, s1, rl, pu, au, oc>>
Combos == {c \in DstRegs \X Op0Regs \X Op1Srcs \X ResLogics \X PcUpdates \X ApUpdates \X Opcodes :
             Defined([dr |-> c[1], r0 |-> c[2], s1 |-> c[3], rl |-> c[4], pu |-> c[5], au |-> c[6], oc |-> c[7]])}
ComboSeq == SetToSeq(Combos)
NCombos == Len(ComboSeq)
ComboRec(c) == [dr |-> c[1], r0 |-> c[2], s1 |-> c[3], rl |-> c[4], pu |-> c[5], au |-> c[6], oc |-> c[7]]

Pool == <<"0", "1", "2", "3", "8000", "ffff", "10000", "8000000000000000", "ffffffffffffffff", "10000000000000005",
          "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000",
          "400000000000008800000000000000000000000000000000000000000000000",
          "800000000000011000000000000000000000000000000000000000000000000">>
\* some value; half of them below 2^128
Value(q) == LET w == Pick(q \o <<1>>, 4)
            IN CASE w = 0 -> PickOf(q \o <<2>>, Pool)
                 [] w = 1 -> NatBe(BSub(Hash(q \o <<3>>), 0, 16))
                 [] w = 2 -> FRed(P, NatBe(BSub(Hash(q \o <<4>>), 0, 32)))
                 [] w = 3 -> Hex(Pick(q \o <<5>>, 70000))
Offset(q, w) == IF ~(Far \/ Wide) THEN Pick(q, 2 * w + 1) - w
                ELSE IF Wide THEN LET c == Pick(q \o <<50>>, 9)
                     IN CASE c = 0 -> -20 - Pick(q, Reach)
                          [] c = 1 -> 20 + Pick(q, Reach)
                          [] OTHER -> Pick(q, 2 * w + 1) - w
                ELSE LET c == Pick(q \o <<50>>, 5)
                     IN CASE c = 0 -> Pick(q, 3) - 32768
                          [] c = 1 -> 32767 - Pick(q, 3)
                          [] OTHER -> Pick(q, 2 * w + 1) - w

(***************************************************************************)
(* Cells under construction.                                               *)
(***************************************************************************)
Put(M, a, v) == IF ~M.ok \/ a < 1 \/ a > Lim THEN [M EXCEPT !.ok = FALSE]
                ELSE IF a \in DOMAIN M.m THEN [M EXCEPT !.ok = (M.m[a] = v)]
                ELSE [ok |-> TRUE, m |-> M.m @@ (a :> v)]
PutNew(M, a, v) == IF a \in DOMAIN M.m THEN M ELSE Put(M, a, v)
At(M, a) == IF a \in DOMAIN M.m THEN M.m[a] ELSE "0"
\* the memory with what instruction I needs at registers r; q seeds the choices
Plan(mem, r, I, q) ==
    LET sz == InstSize(I)
        da == DstAddr(I, r)
        a0 == Op0Addr(I, r)
        free == {a \in 1..(CodeLen - 1) : a \notin DOMAIN mem /\ a + 1 \notin DOMAIN mem /\ a # r.pc /\ a # r.pc + 1}
        fs == SetToSortSeq(free, <)
        tgt == IF fs = <<>> \/ Pick(q \o <<6>>, 24) = 0 THEN r.pc ELSE PickOf(q \o <<7>>, fs)
        M0 == Put([ok |-> TRUE, m |-> mem], r.pc, Encode(I))
        M1 == IF I.oc = 1 THEN Put(Put(M0, da, FE(r.fp)), a0, FE(r.pc + sz)) ELSE M0
        M2 == PutNew(M1, a0, IF I.s1 = 0 THEN FE(r.ap + Offset(q \o <<8>>, 5) - I.o[3]) ELSE Value(q \o <<9>>))
        v0 == At(M2, a0)
        a1 == Op1Addr(I, r, v0)
        goal == CASE I.pu = 1 -> FE(tgt)
                  [] I.pu = 2 -> FE(tgt - r.pc)
                  [] I.au = 1 -> FE(Pick(q \o <<10>>, 3))
                  [] OTHER -> Value(q \o <<11>>)
        v1 == IF I.pu = 4 THEN FE(tgt - r.pc)
              ELSE CASE I.rl = 0 -> goal [] I.rl = 1 -> FSub(P, goal, v0) [] I.rl = 2 -> FMul(P, goal, FInv(P, v0))
        M3 == PutNew(M2, a1, v1)
        res == ResOf(I, v0, At(M3, a1))
        dv == CASE I.oc = 4 -> res
                [] I.oc = 2 -> FE(r.ap + Offset(q \o <<12>>, 3))
                [] I.pu = 4 /\ Pick(q \o <<13>>, 2) = 0 -> "0"
                [] OTHER -> Value(q \o <<14>>)
    IN PutNew(M3, da, dv)
\* the step can be taken from memory m, and leads somewhere
InRange(x) == x >= 1 /\ x <= Lim - 8
\* (fresh: to a place where no instruction is yet)
Goes(m, r, fresh) ==
              LET s == Step(m, r)
              IN /\ s.ok
                 /\ fresh => s.next.pc \notin DOMAIN m
                 /\ InRange(s.next.pc) /\ InRange(s.next.ap) /\ InRange(s.next.fp)
                 /\ s.next.pc \in DOMAIN m => IsWord(m[s.next.pc]) /\ Defined(Groups(m[s.next.pc]))
Try(mem, r, I, q, fresh) ==
                     LET M == Plan(mem, r, I, q)
                     IN IF M.ok /\ Goes(M.m, r, fresh) THEN M ELSE [ok |-> FALSE]
W == IF Tight THEN 2 ELSE 5
Offs(c, q) == <<Offset(q \o <<20>>, W), Offset(q \o <<21>>, W),
                IF c.s1 = 1 /\ Pick(q \o <<22>>, 4) > 0 THEN 1 ELSE Offset(q \o <<23>>, W)>>
Tries == 30
\* how long to look for a fresh target
Patience(q) == IF Pick(q \o <<24>>, 6) = 0 THEN 0 ELSE 22
\* first attempt that works, with its number, or a failed one
RECURSIVE Attempt(_, _, _, _, _)
Attempt(mem, r, c, q, t) ==
    IF t > Tries THEN [ok |-> FALSE]
    ELSE LET qt == q \o <<t>>
             fixed == r.pc \in DOMAIN mem
             I == IF fixed THEN Groups(mem[r.pc]) ELSE [o |-> Offs(c, qt)] @@ c
             M == TLCEval(Try(mem, r, I, qt, t <= Patience(q)))
         IN IF M.ok THEN [ok |-> TRUE, m |-> M.m] ELSE Attempt(mem, r, c, q, t + 1)

VARIABLES mem, r, regs, nxt, ph
vars == <<k, mem, r, regs, nxt, ph>>
\* which combination is tried next
ComboAt(j) == IF PROFILE = "combo" THEN ComboRec(ComboSeq[((k * 12 + j) % NCombos) + 1])
              ELSE ComboRec(PickOf(<<k, j, 30>>, ComboSeq))
Init == /\ k \in 0..(SIZE - 1)
        /\ mem = <<>> /\ regs = <<>> /\ nxt = 0 /\ ph = "run"
        /\ r = [pc |-> 1 + Pick(<<k, 2>>, 2), ap |-> ApInit, fp |-> ApInit - Pick(<<k, 3>>, 3)]
Take == /\ ph = "run" /\ Len(regs) < StepsOf(k) /\ nxt < 2 * StepsOf(k)
        /\ \E a \in {TLCEval(Attempt(mem, r, ComboAt(nxt), <<k, nxt, 31>>, 1))}, again \in {r.pc \in DOMAIN mem} :
              IF a.ok
              THEN /\ mem' = a.m /\ regs' = Append(regs, r) /\ r' = Step(a.m, r).next
                   /\ nxt' = IF again THEN nxt ELSE nxt + 1
                   /\ ph' = "run"
              \* this combination cannot be placed here: go on with the next one
              ELSE /\ UNCHANGED <<mem, regs, r>> /\ nxt' = nxt + 1
                   /\ ph' = IF again THEN "end" ELSE "run"
        /\ UNCHANGED k
\* what surrounds the run: the rest of the program, output and range-check segments
FillTo(m, n) == m @@ [a \in 1..n |-> Value(<<k, a, 40>>)]
Ranges(m, lo, hi, len, ok(_)) ==
    UNION {{<<a, b>> : b \in {b \in a..Min({hi, a + len}) : \A x \in a..(b - 1) : x \in DOMAIN m /\ ok(x)}} : a \in lo..hi}
\* ranges with a cell that m does not have
Gaps(m, lo, hi, len) ==
    UNION {{<<a, b>> : b \in {b \in a..Min({hi, a + len}) : \E x \in a..(b - 1) : x \notin DOMAIN m}} : a \in lo..hi}
Small128(m, x) == NBits(m[x]) <= 128
SegOf(S, q) == IF S = {} THEN <<>>
               ELSE LET c == PickOf(q, SetToSeq(S)) IN <<Hex(c[1]), Hex(c[2])>>
End == /\ (ph = "end" \/ (ph = "run" /\ (Len(regs) >= StepsOf(k) \/ nxt >= 2 * StepsOf(k)))) /\ Len(regs) > 0
       /\ Emit(LET size == IF Tight THEN 1 + Pick(<<k, 41>>, CodeLen - 1) ELSE CodeLen - Pick(<<k, 41>>, 6)
              used == TLCEval(FillTo(mem, size))
              top == Max(DOMAIN used)
              more == IF Full THEN <<290, 1, 20, 12, 60, 150, 5, 33>>[((k \div 2) % 8) + 1] ELSE 0
              \* some runs have an output segment in which there are cells between those accessed, and that they do not touch
              gap == IF Far \/ (IF Full THEN k % 2 = 0 ELSE Pick(<<k, 48>>, 4) > 0) THEN <<>>
                     ELSE LET S == TLCEval(Gaps(mem, size + 1, top, 6))
                          IN IF S = {} THEN <<>> ELSE PickOf(<<k, 49>>, SetToSeq(S))
              beyond == IF gap = <<>> THEN (top + 1)..(top + more) ELSE gap[1]..(gap[2] - 1)
              full == TLCEval(used @@ [a \in beyond |-> Value(<<k, a, 47>>)])
              rc == IF Far \/ Pick(<<k, 42>>, 2) = 0 THEN <<>>
                    ELSE SegOf(Ranges(used, size + 1, top, Min({Len(regs), 5}), LAMBDA x : Small128(used, x)), <<k, 43>>)
              out == IF gap # <<>> THEN <<Hex(gap[1]), Hex(gap[2])>>
                     ELSE IF Full THEN <<Hex(top + 1), Hex(top + more + 1)>>
                     ELSE IF Far \/ Pick(<<k, 44>>, 2) = 0 THEN <<>> ELSE SegOf(Ranges(mem, size + 1, top, 4, LAMBDA x : TRUE), <<k, 45>>)
              st == TLCEval([j \in 1..Len(regs) |-> Step(full, regs[j])])
          IN [run |-> k,
                   regs |-> [j \in 1..Len(regs) |-> <<Hex(regs[j].pc), Hex(regs[j].ap), Hex(regs[j].fp)>>],
                   mem |-> LET d == SetToSortSeq(DOMAIN full, <) IN [j \in 1..Len(d) |-> <<Hex(d[j]), full[d[j]]>>],
                   size |-> size,
                   segs |-> [rc |-> rc, out |-> out],
                   combos |-> {FlagWord(st[j].I) : j \in 1..Len(regs)},
                   taken |-> Cardinality({j \in 1..Len(regs) : st[j].I.pu = 4 /\ st[j].d # "0"}),
                   back |-> Len(regs) - Cardinality({regs[j].pc : j \in 1..Len(regs)})])
       /\ ph' = "done" /\ UNCHANGED <<k, mem, r, regs, nxt>>
Next == Take \/ End
Spec == Init /\ [][Next]_vars
\* every run is a run: each step follows from the one before, in the final memory as in every earlier one
IsRun == \A j \in 1..Len(regs) :
            LET s == Step(mem, regs[j]) IN s.ok /\ (j < Len(regs) => s.next = regs[j + 1]) /\ (j = Len(regs) => s.next = r)
=============================================================================
