------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* Running compiled programs.                                              *)
(*                                                                         *)
(* A program of either Cairo version is loaded into segments, runs from    *)
(* its entry point with its operands deduced where they are unknown, and   *)
(* the segments are laid out one after the other from address 1.  The      *)
(* states are those of the running machine, on segments; at the end the    *)
(* run must be one of the machine of CairoMachine on flat memory           *)
(* (invariant OnFlatMemory).  A behaviour makes one program, runs it for   *)
(* each call in turn, and prints the program and what each call must give. *)
(***************************************************************************)
EXTENDS CairoMachine, Env

\* the largest value of a word of gas; what is loaded behind a Cairo 1 program
Gas == "ffffffffffffffff"
RetWord == "208b7fff7fff7ffe"
Layouts == <<"plain", "small", "dex", "recursive", "starknet", "starknet_with_keccak", "recursive_large_output", "all_cairo", "all_solidity", "dynamic">>
(***************************************************************************)
(* Values: <<"i", hex>> a number, <<"r", segment, offset>> an address,     *)
(* <<>> unknown.                                                           *)
(***************************************************************************)
Num(h) == <<"i", h>>
Ptr(s, o) == <<"r", s, o>>
IsNum(v) == v # <<>> /\ v[1] = "i"
IsPtr(v) == v # <<>> /\ v[1] = "r"
\* a number as a (signed) distance; Nowhere when it is too large for one
Nowhere == 2 ^ 29
Dist(h) == IF NLt(h, "20000000") THEN ToInt(h)
           ELSE LET m == FSub(P, "0", h) IN IF NLt(m, "20000000") THEN -ToInt(m) ELSE Nowhere
Shift(p, h) == IF Dist(h) = Nowhere THEN <<>> ELSE Ptr(p[2], p[3] + Dist(h))
VAdd(a, b) == CASE IsNum(a) /\ IsNum(b) -> Num(FAdd(P, a[2], b[2]))
                [] IsPtr(a) /\ IsNum(b) -> Shift(a, b[2])
                [] IsNum(a) /\ IsPtr(b) -> Shift(b, a[2])
                [] OTHER -> <<>>
VSub(a, b) == CASE IsNum(a) /\ IsNum(b) -> Num(FSub(P, a[2], b[2]))
                [] IsPtr(a) /\ IsNum(b) -> Shift(a, FSub(P, "0", b[2]))
                [] IsPtr(a) /\ IsPtr(b) -> IF a[2] = b[2] THEN Num(FInt(P, a[3] - b[3])) ELSE <<>>
                [] OTHER -> <<>>
VMul(a, b) == IF IsNum(a) /\ IsNum(b) THEN Num(FMul(P, a[2], b[2])) ELSE <<>>
VDiv(a, b) == IF IsNum(a) /\ IsNum(b) /\ b[2] # "0" THEN Num(FMul(P, a[2], FInv(P, b[2]))) ELSE <<>>

(***************************************************************************)
(* The running machine.  s : [ok, mem, nseg, pc, ap, fp, trace], mem a     *)
(* function from <<segment, offset>>.                                      *)
(***************************************************************************)
Get(mem, a) == IF a \in DOMAIN mem THEN mem[a] ELSE <<>>
Fail(s) == [s EXCEPT !.ok = FALSE]
Base(s, reg) == IF reg = "FP" THEN s.fp ELSE s.ap
CellAt(s, c) == LET b == Base(s, c[1]) IN <<b[1], b[2] + c[2]>>
Know(s, a, v) == IF Get(s.mem, a) \notin {<<>>, v} THEN Fail(s) ELSE [s EXCEPT !.mem = (a :> v) @@ @]
Operand(s, x) == IF Has(x, "im") THEN Num(x.im) ELSE LET v == Get(s.mem, CellAt(s, x.d)) IN IF IsNum(v) THEN v ELSE <<>>
Hint(s, h) ==
    IF ~s.ok THEN s
    ELSE IF h.h = "AllocSegment" THEN Know([s EXCEPT !.nseg = @ + 1], CellAt(s, h.dst), Ptr(s.nseg, 0))
    ELSE LET a == Operand(s, h.lhs)
             b == Operand(s, h.rhs)
         IN IF <<>> \in {a, b} THEN Fail(s)
            ELSE Know(s, CellAt(s, h.dst), Num(IF (IF h.h = "TestLessThan" THEN NLt(a[2], b[2]) ELSE NLe(a[2], b[2])) THEN "1" ELSE "0"))
HintsAt(prog, off) == LET S == {k \in 1..Len(prog.hints) : prog.hints[k][1] = off} IN IF S = {} THEN <<>> ELSE prog.hints[CHOOSE k \in S : TRUE][2]
Add(a, k) == <<a[1], a[2] + k>>
\* the instruction I at s.pc
Execute(s, I) ==
    LET db == IF I.dr = 0 THEN s.ap ELSE s.fp
        ob == IF I.r0 = 0 THEN s.ap ELSE s.fp
        da == Add(db, I.o[1])
        a0 == Add(ob, I.o[2])
        k0 == Get(s.mem, a0)
        a1 == CASE I.s1 = 0 -> IF IsPtr(k0) THEN <<k0[2], k0[3] + I.o[3]>> ELSE <<>>
                [] I.s1 = 1 -> Add(s.pc, I.o[3])
                [] I.s1 = 2 -> Add(s.fp, I.o[3])
                [] I.s1 = 4 -> Add(s.ap, I.o[3])
        k1 == IF a1 = <<>> THEN <<>> ELSE Get(s.mem, a1)
        kd == Get(s.mem, da)
        nextpc == Add(s.pc, InstSize(I))
        \* what the opcode tells about unknown operands
        d0 == IF kd = <<>> /\ I.oc = 1 THEN Ptr(s.fp[1], s.fp[2]) ELSE kd
        v0 == CASE k0 # <<>> -> k0
                [] I.oc = 1 -> Ptr(nextpc[1], nextpc[2])
                [] I.oc = 4 /\ d0 # <<>> /\ k1 # <<>> /\ I.rl = 1 -> VSub(d0, k1)
                [] I.oc = 4 /\ d0 # <<>> /\ k1 # <<>> /\ I.rl = 2 -> VDiv(d0, k1)
                [] OTHER -> <<>>
        v1 == CASE k1 # <<>> -> k1
                [] I.oc = 4 /\ d0 # <<>> /\ I.rl = 0 -> d0
                [] I.oc = 4 /\ d0 # <<>> /\ v0 # <<>> /\ I.rl = 1 -> VSub(d0, v0)
                [] I.oc = 4 /\ d0 # <<>> /\ v0 # <<>> /\ I.rl = 2 -> VDiv(d0, v0)
                [] OTHER -> <<>>
        res == CASE I.pu = 4 -> <<>> [] I.rl = 0 -> v1 [] I.rl = 1 -> VAdd(v0, v1) [] I.rl = 2 -> VMul(v0, v1)
        d == IF d0 = <<>> /\ I.oc = 4 THEN res ELSE d0
        pc == CASE I.pu = 0 -> nextpc
                [] I.pu = 1 -> IF IsPtr(res) THEN <<res[2], res[3]>> ELSE <<>>
                [] I.pu = 2 -> IF IsNum(res) /\ Dist(res[2]) # Nowhere THEN Add(s.pc, Dist(res[2])) ELSE <<>>
                [] I.pu = 4 -> IF d = Num("0") THEN nextpc
                               ELSE IF IsNum(v1) /\ Dist(v1[2]) # Nowhere THEN Add(s.pc, Dist(v1[2])) ELSE <<>>
        ap == CASE I.oc = 1 -> Add(s.ap, 2)
                [] I.au = 0 -> s.ap
                [] I.au = 1 -> IF IsNum(res) /\ Dist(res[2]) # Nowhere THEN Add(s.ap, Dist(res[2])) ELSE <<>>
                [] I.au = 2 -> Add(s.ap, 1)
        \* returning to a frame given as a number stays where it is (only at the end of a Cairo 1 run)
        fp == CASE I.oc = 1 -> Add(s.ap, 2)
                [] I.oc = 2 -> IF IsPtr(d) THEN <<d[2], d[3]>> ELSE IF IsNum(d) /\ Dist(d[2]) # Nowhere THEN Add(s.fp, Dist(d[2])) ELSE <<>>
                [] OTHER -> s.fp
    IN IF \/ <<>> \in {a1, v0, v1, d, pc, ap, fp}
          \/ (I.pu # 4 /\ res = <<>>)
          \/ (I.oc = 4 /\ res # d)
          \/ (I.oc = 1 /\ (d # Ptr(s.fp[1], s.fp[2]) \/ v0 # Ptr(nextpc[1], nextpc[2])))
       THEN Fail(s)
       ELSE [s EXCEPT !.mem = (da :> d) @@ (a0 :> v0) @@ (a1 :> v1) @@ @, !.pc = pc, !.ap = ap, !.fp = fp]
RStep(prog, s0) ==
    LET s == FoldLeft(Hint, [s0 EXCEPT !.trace = Append(@, <<s0.pc, s0.ap, s0.fp>>)], IF s0.pc[1] = 0 THEN HintsAt(prog, s0.pc[2]) ELSE <<>>)
        w == Get(s.mem, s.pc)
    IN IF ~s.ok \/ ~IsNum(w) \/ ~IsWord(w[2]) \/ ~Defined(Groups(w[2])) THEN Fail(s) ELSE Execute(s, Groups(w[2]))

(***************************************************************************)
(* Loading: what is in memory before the first step.                       *)
(* prog : [v, data, builtins, hints, ids]                                  *)
(***************************************************************************)
Has0(prog, b) == \E k \in 1..Len(prog.builtins) : prog.builtins[k] = b
\* builtin segments follow the execution segment, in this order
SegOf(prog, b) == IF prog.v = 1 THEN 2 ELSE IF b = "output" THEN 2 ELSE IF Has0(prog, "output") THEN 3 ELSE 2
UsesRc(prog) == prog.v = 1 \/ Has0(prog, "range_check")
Segments(q, seg) == TLCEval([a \in {<<seg, k - 1>> : k \in 1..Len(q)} |-> q[a[2] + 1]])
Load(prog, entry) ==
    LET nb == Len(prog.builtins)
        code == [k \in 1..Len(prog.data) |-> Num(prog.data[k])]
        s0 == IF prog.v = 0 THEN [n |-> 4 + nb, end |-> 3 + nb, extra |-> <<>>,
                                  stack |-> [k \in 1..nb |-> Ptr(SegOf(prog, prog.builtins[k]), 0)] \o <<Ptr(2 + nb, 0), Ptr(3 + nb, 0)>>]
              \* range check 2, system 3, builtin costs 4, call data 5
              ELSE [n |-> 7, end |-> 6, extra |-> <<Num(RetWord), Ptr(4, 0)>>,
                    stack |-> <<Ptr(2, 0), Num(Gas), Ptr(3, 0), Ptr(5, 0), Ptr(5, 0), Num("0"), Ptr(6, 0)>>]
        sp == <<1, Len(s0.stack)>>
    IN [ok |-> TRUE, end |-> <<s0.end, 0>>, nseg |-> s0.n, pc |-> <<0, entry>>, ap |-> sp, fp |-> sp, trace |-> <<>>,
        mem |-> Segments(code \o s0.extra, 0) @@ Segments(s0.stack, 1)
                @@ (IF prog.v = 1 THEN Segments([k \in 1..5 |-> Num("0")], 4) ELSE <<>>)]

(***************************************************************************)
(* After the run: what makes it fail, and the flat memory.                 *)
(***************************************************************************)
SegCells(s, g) == {a[2] : a \in {a \in DOMAIN s.mem : a[1] = g}}
Size(s, g) == Max({-1} \cup SegCells(s, g)) + 1
Sound(prog, s) ==
    /\ \A a \in DOMAIN s.mem : a[2] >= 0
    /\ \A o \in SegCells(s, 0) : o < Len(prog.data) + (IF prog.v = 1 THEN 2 ELSE 0)
    /\ \A g \in {SegOf(prog, b) : b \in {prog.builtins[k] : k \in 1..Len(prog.builtins)} \cup (IF prog.v = 1 THEN {"range_check"} ELSE {})} :
          Cardinality(SegCells(s, g)) = Size(s, g)
    /\ UsesRc(prog) => \A o \in SegCells(s, SegOf(prog, "range_check")) :
                          LET v == s.mem[<<SegOf(prog, "range_check"), o>>] IN IsNum(v) /\ NBits(v[2]) <= 128
\* where each segment starts
Bases(s) == TLCEval([g \in 0..s.nseg |-> 1 + FoldLeft(LAMBDA x, y : x + y, 0, [h \in 1..g |-> Size(s, h - 1)])])
FlatA(B, a) == B[a[1]] + a[2]
FlatV(B, v) == IF IsNum(v) THEN v[2] ELSE Hex(FlatA(B, <<v[2], v[3]>>))
Result(prog, s) ==
    LET B == Bases(s)
        as == SetToSortSeq({<<FlatA(B, a), a>> : a \in DOMAIN s.mem}, LAMBDA x, y : x[1] < y[1])
        rc == IF UsesRc(prog) THEN SegOf(prog, "range_check") ELSE -1
    IN [s |-> "ok",
        regs |-> TLCEval([k \in 1..Len(s.trace) |-> <<Hex(FlatA(B, s.trace[k][1])), Hex(FlatA(B, s.trace[k][2])), Hex(FlatA(B, s.trace[k][3]))>>]),
        cells |-> TLCEval([k \in 1..Len(as) |-> <<Hex(as[k][1]), FlatV(B, s.mem[as[k][2]])>>]),
        size |-> Len(prog.data),
        \* the machine does not tell where the range checks of a Cairo 1 run stop
        rc |-> IF rc = -1 THEN <<>> ELSE <<Hex(B[rc]), Hex(B[rc] + (IF prog.v = 1 THEN 0 ELSE Size(s, rc)))>>,
        out |-> IF Has0(prog, "output") THEN <<Hex(B[2]), Hex(B[3])>> ELSE <<>>,
        stop |-> Hex(FlatA(B, s.end))]

(***************************************************************************)
(* Programs.  Code is built item by item; g : [c, d, n, h, calls] is the   *)
(* code so far, how many numbers are known below ap, how many cells each   *)
(* pointer's segment has, the hints, and the calls to be linked.           *)
(***************************************************************************)
Instr(dr, r0, s1, rl, pu, au, oc, o) == Encode([dr |-> dr, r0 |-> r0, s1 |-> s1, rl |-> rl, pu |-> pu, au |-> au, oc |-> oc, o |-> o])
SignedFE(n) == IF n < 0 THEN FSub(P, "0", Hex(-n)) ELSE Hex(n)
PushImm(v) == <<Instr(0, 1, 1, 0, 0, 2, 4, <<0, -1, 1>>), v>>
PushBin(rl, a, b) == <<Instr(0, 0, 4, rl, 0, 2, 4, <<0, -a, -b>>)>>
\* the cell at ap such that [ap-a] = [ap-b] + (or *) it
Solve(rl, a, b) == <<Instr(0, 0, 4, rl, 0, 2, 4, <<-a, -b, 0>>)>>
JmpRel(k) == <<Instr(1, 1, 1, 0, 2, 0, 0, <<-1, -1, 1>>), SignedFE(k)>>
Jnz(a, k) == <<Instr(0, 1, 1, 0, 4, 0, 0, <<-a, -1, 1>>), SignedFE(k)>>
JnzHere(k) == <<Instr(0, 1, 1, 0, 4, 2, 0, <<0, -1, 1>>), SignedFE(k)>>
CallRel(k) == <<Instr(0, 0, 1, 0, 2, 0, 1, <<0, 1, 1>>), SignedFE(k)>>
Ret == <<Instr(1, 1, 2, 0, 1, 0, 2, <<-2, -1, -1>>)>>
AddAp(k) == <<Instr(1, 1, 1, 0, 0, 1, 0, <<-1, -1, 1>>), SignedFE(k)>>
AssertImm(v) == <<Instr(0, 1, 1, 0, 0, 0, 4, <<-1, -1, 1>>), v>>
\* [ap-1] = [[fp-p] + j] and [ap] = [[fp-p] + j]; ap++
StoreFp(p, j) == <<Instr(0, 1, 0, 0, 0, 0, 4, <<-1, -p, j>>)>>
LoadFp(p, j) == <<Instr(0, 1, 0, 0, 0, 2, 4, <<0, -p, j>>)>>
StoreAp(p, j) == <<Instr(0, 0, 0, 0, 0, 0, 4, <<-1, -p, j>>)>>
PushPtr(p, k) == <<Instr(0, 1, 1, 1, 0, 2, 4, <<0, -p, 1>>), SignedFE(k)>>
Halt == <<Instr(1, 1, 2, 0, 1, 0, 0, <<-1, -1, -1>>)>>

Imm(q) == LET w == Pick(q \o <<1>>, 4)
          IN CASE w = 0 -> PickOf(q \o <<2>>, <<"0", "1", "2", "ffff", "ffffffffffffffff", "ffffffffffffffffffffffffffffffff", NSub(P, "1")>>)
               [] w = 1 -> FRed(P, NatBe(Hash(q \o <<3>>)))
               [] w = 2 -> NatBe(BSub(Hash(q \o <<4>>), 0, 16))
               [] w = 3 -> Hex(Pick(q \o <<5>>, 1000))
\* pointers a frame holds: <<distance below fp, name>>
Pointers(v, bs) == IF v = 1 THEN << <<7, "range_check">>, <<5, "system">> >> ELSE [j \in 1..Len(bs) |-> <<Len(bs) - j + 3, bs[j]>>]
PNo(ps, name) == CHOOSE j \in 1..Len(ps) : ps[j][2] = name
More(g, words, push) == [g EXCEPT !.c = @ \o words, !.d = @ + push]
Items == <<"imm", "imm", "add", "mul", "solve", "div", "jump", "jnz", "loop", "call", "addap", "store", "store", "load", "alloc", "less", "here">>
Bads == <<"assert", "big", "unknown", "word", "zero", "gap", "outside", "pointer", "alloc">>
Item(g, v, ps, q) ==
    LET it == PickOf(q \o <<10>>, Items)
        ok2 == g.d >= 2
        a == 1 + Pick(q \o <<11>>, Min({g.d, 6}))
        b == 1 + Pick(q \o <<12>>, Min({g.d, 6}))
        p == IF ps = <<>> THEN 0 ELSE 1 + Pick(q \o <<13>>, Len(ps))
        skip == 1 + Pick(q \o <<14>>, 3)
        f == Pick(q \o <<15>>, 2)
    IN CASE it = "add" /\ ok2 -> More(g, PushBin(1, a, b), 1)
         [] it = "mul" /\ ok2 -> More(g, PushBin(2, a, b), 1)
         [] it = "solve" /\ ok2 -> More(g, Solve(1, a, b), 1)
         \* divide by a fresh non-zero number
         [] it = "div" /\ ok2 -> More(g, PushImm(Hex(1 + Pick(q \o <<16>>, 90))) \o Solve(2, a + 1, 1), 2)
         [] it = "jump" -> More(g, JmpRel(2 + skip) \o [k \in 1..skip |-> Imm(q \o <<17, k>>)], 0)
         \* over code that may run as well
         [] it = "jnz" /\ ok2 -> More(g, Jnz(a, 2 + 2 * skip) \o Flat([k \in 1..skip |-> AddAp(0)]), 0)
         [] it = "loop" -> [More(g, PushImm(Hex(1 + Pick(q \o <<18>>, 4))) \o <<Instr(0, 0, 1, 1, 0, 2, 4, <<0, -1, 1>>), SignedFE(-1)>> \o Jnz(1, -2), 0) EXCEPT !.d = 1]
         [] it = "call" -> [More(g, CallRel(0), 0) EXCEPT !.calls = Append(@, <<Len(g.c), f>>), !.d = 1 + f]
         [] it = "addap" -> [More(g, AddAp(Pick(q \o <<19>>, 4)), 0) EXCEPT !.d = 0]
         [] it = "store" /\ ps # <<>> ->
              [More(g, PushImm(IF ps[p][2] = "range_check" THEN NLow(Imm(q \o <<20>>), 128) ELSE Imm(q \o <<20>>)) \o StoreFp(ps[p][1], g.n[p]), 1) EXCEPT !.n[p] = @ + 1]
         [] it = "load" /\ ps # <<>> /\ g.n[p] > 0 -> More(g, LoadFp(ps[p][1], Pick(q \o <<21>>, g.n[p])), 1)
         \* a segment of its own, written to through the pointer
         [] it = "alloc" /\ v = 1 ->
              [More(g, AddAp(1) \o PushImm(Imm(q \o <<22>>)) \o StoreAp(2, Pick(q \o <<23>>, 2)), 1)
                 EXCEPT !.h = Append(@, <<Len(g.c), <<[h |-> "AllocSegment", dst |-> <<"AP", 0>>]>> >>), !.d = 1]
         \* a comparison, stored at ap and used
         [] it \in {"less", "here"} /\ v = 1 /\ ok2 ->
              [More(g, JnzHere(4) \o AddAp(0), 0)
                 EXCEPT !.h = Append(@, <<Len(g.c), <<[h |-> IF it = "less" THEN "TestLessThan" ELSE "TestLessThanOrEqual",
                                                       lhs |-> IF f = 0 THEN [im |-> Imm(q \o <<24>>)] ELSE [d |-> <<"AP", -a>>],
                                                       rhs |-> [d |-> <<"AP", -b>>], dst |-> <<"AP", 0>>]>> >>), !.d = @ + 1]
         [] OTHER -> More(g, PushImm(Imm(q \o <<25>>)), 1)
\* something that makes the run fail
BadItem(g, v, ps, q) ==
    LET it == PickOf(q \o <<30>>, Bads)
        hasrc == \E j \in 1..Len(ps) : ps[j][2] = "range_check"
    IN CASE it = "big" /\ hasrc -> LET p == PNo(ps, "range_check")
                                   IN [More(g, PushImm(NAdd(Pow2(128), Hex(Pick(q \o <<31>>, 9)))) \o StoreFp(ps[p][1], g.n[p]), 1) EXCEPT !.n[p] = @ + 1]
         [] it = "gap" /\ hasrc -> LET p == PNo(ps, "range_check") IN More(g, PushImm("5") \o StoreFp(ps[p][1], g.n[p] + 1), 1)
         [] it = "unknown" -> More(g, <<Instr(0, 0, 4, 1, 0, 2, 4, <<0, 7, 8>>)>>, 1)
         [] it = "word" -> More(g, <<PickOf(q \o <<32>>, <<NAdd(Pow2(63), "480680017fff8000"), "7fffffffffffffff", "ffffffffffffffffffff">>)>>, 0)
         [] it = "zero" -> More(g, PushImm("5") \o PushImm("0") \o Solve(2, 2, 1), 2)
         [] it = "outside" -> [More(g, CallRel(0), 0) EXCEPT !.calls = Append(@, <<Len(g.c), 2>>)]
         [] it = "pointer" -> More(g, JmpRel(-400), 0)
         [] it = "alloc" /\ v = 1 -> [More(g, PushImm("1"), 1) EXCEPT !.h = Append(@, <<Len(g.c), <<[h |-> "AllocSegment", dst |-> <<"AP", -1>>]>> >>)]
         [] OTHER -> More(g, PushImm("5") \o AssertImm(PickOf(q \o <<33>>, <<"4", "6", NSub(P, "5")>>)), 1)
RECURSIVE Body(_, _, _, _, _, _)
Body(g, v, ps, q, n, fault) ==
    IF n = 0 THEN g
    ELSE Body(TLCEval(IF fault = n THEN BadItem(g, v, ps, q \o <<n>>) ELSE Item(g, v, ps, q \o <<n>>)), v, ps, q, n - 1, fault)
\* an entry point: body, builtin pointers moved past what was written, return
Entry(at, v, ps, q, fault) ==
    LET start == [c |-> <<>>, d |-> 0, n |-> [j \in 1..Len(ps) |-> 0], h |-> <<>>, calls |-> <<>>]
        g == Body(start, v, ps, q, 1 + Pick(q \o <<40>>, 9), fault)
        bye == IF Pick(q \o <<41>>, 12) = 0 THEN Halt ELSE Flat([j \in 1..Len(ps) |-> PushPtr(ps[j][1], g.n[j])]) \o Ret
    IN [c |-> g.c \o bye, h |-> [k \in 1..Len(g.h) |-> <<g.h[k][1] + at, g.h[k][2]>>], calls |-> [k \in 1..Len(g.calls) |-> <<g.calls[k][1] + at, g.calls[k][2]>>]]
\* the functions called: one number, two numbers, one that writes outside the program
Funs(q) == << PushImm(Imm(q \o <<50>>)) \o Ret, PushImm(Imm(q \o <<51>>)) \o PushImm("3") \o Ret, PushImm("1") \o StoreFp(1, 300) \o Ret >>
FunAt(F, f, at) == at + (CASE f = 0 -> 0 [] f = 1 -> Len(F[1]) [] f = 2 -> Len(F[1]) + Len(F[2]))
Link(c, calls, F, at) == TLCEval([k \in 1..Len(c) |-> IF \E x \in 1..Len(calls) : calls[x][1] + 2 = k
                                                      THEN LET x == CHOOSE x \in 1..Len(calls) : calls[x][1] + 2 = k
                                                           IN SignedFE(FunAt(F, calls[x][2], at) - calls[x][1])
                                                      ELSE c[k]])
Make(k) ==
    LET v == IF Pick(<<k, 60>>, 3) = 0 THEN 1 ELSE 0
        bs == IF v = 1 THEN <<>> ELSE PickOf(<<k, 61>>, << <<>>, <<"output">>, <<"range_check">>, <<"output", "range_check">>, <<"output", "range_check">> >>)
        ps == Pointers(v, bs)
        junk == IF v = 1 THEN <<>> ELSE [j \in 1..Pick(<<k, 62>>, 3) |-> Imm(<<k, 63, j>>)]
        A == Entry(Len(junk), v, ps, <<k, 64>>, IF Pick(<<k, 65>>, 5) = 0 THEN 1 ELSE 0)
        B == Entry(Len(junk) + Len(A.c), v, ps, <<k, 66>>, 0)
        F == Funs(<<k>>)
        c == junk \o A.c \o B.c
    IN [v |-> v, builtins |-> bs, data |-> Link(c, A.calls \o B.calls, F, Len(c)) \o Flat(F),
        hints |-> A.h \o B.h, ids |-> ("main" :> Len(junk)) @@ ("alt" :> Len(junk) + Len(A.c))]
\* programs from elsewhere, with their text, as further members of the family
Given == IF Has(IOEnv, "GIVEN") THEN ndJsonDeserialize(IOEnv.GIVEN) ELSE <<>>
\* what else a file may hold
Text(prog) == IF Has(prog, "text") THEN prog.text ELSE LET code == [k \in 1..Len(prog.data) |-> "0x" \o prog.data[k]]
                  cell(c) == [register |-> c[1], offset |-> c[2]]
                  opd(x) == IF Has(x, "im") THEN [Immediate |-> "0x" \o x.im] ELSE [Deref |-> cell(x.d)]
                  hint(h) == h.h :> IF h.h = "AllocSegment" THEN [dst |-> cell(h.dst)] ELSE [lhs |-> opd(h.lhs), rhs |-> opd(h.rhs), dst |-> cell(h.dst)]
              IN IF prog.v = 0
                 THEN ToJson([prime |-> "0x" \o P, data |-> code, builtins |-> prog.builtins, hints |-> <<>>, main_scope |-> "__main__",
                              identifiers |-> ("__main__.main" :> [pc |-> prog.ids["main"], type |-> "function"]) @@ ("__main__.alt" :> [pc |-> prog.ids["alt"], type |-> "function"])])
                 ELSE ToJson([prime |-> "0x" \o P, compiler_version |-> "1.1.0", bytecode |-> code,
                              hints |-> [k \in 1..Len(prog.hints) |-> <<prog.hints[k][1], [j \in 1..Len(prog.hints[k][2]) |-> hint(prog.hints[k][2][j])]>>],
                              entry_points_by_type |-> [EXTERNAL |-> <<>>, L1_HANDLER |-> <<>>, CONSTRUCTOR |-> <<>>]])
Unloadable(t, q) == PickOf(q, <<SubSeq(t, 1, Pick(q \o <<1>>, Len(t) - 1)), "", "null", "[]", "{}", "3", "not a program", "{\"data\": 1, \"bytecode\": \"0x1\"}",
                                "{\"data\": [\"0x1\"]}", "{\"bytecode\": [\"xyz\"], \"hints\": []}">>)

(***************************************************************************)
(* Behaviours.                                                             *)
(***************************************************************************)
VARIABLES ph,      \* "start", "call", "run", "end"; checking: "start", "end"
          i, prog, calls, wants, s
vars == <<ph, i, prog, calls, wants, s>>
Init == /\ ph = "start" /\ prog = <<>> /\ calls = <<>> /\ wants = <<>> /\ s = <<>>
        /\ i \in IF MODE = "gen" THEN 0..(SIZE + Len(Given) - 1) ELSE 1..Len(Recs)
\* the first call is what the arguments are prepared from; [name, layout]: <<>> is no name
CallsOf(k) == << [entry |-> <<>>, layout |-> "small"],
                 [entry |-> <<PickOf(<<k, 70>>, <<"alt", "alt", "main", "nosuch", "">>)>>, layout |-> Layouts[(k % 10) + 1]],
                 [entry |-> <<"main">>, layout |-> PickOf(<<k, 71>>, Layouts)] >>
Create == /\ MODE = "gen" /\ ph = "start" /\ ph' = "call" /\ UNCHANGED <<i, wants, s>>
          /\ prog' = TLCEval(IF i < SIZE THEN Make(i) ELSE Given[i - SIZE + 1]) /\ calls' = CallsOf(i)
Cur == calls[Len(wants) + 1]
NameOf(c) == IF c.entry = <<>> THEN "main" ELSE c.entry[1]
Starts(c) == prog.v = 1 \/ (NameOf(c) \in DOMAIN prog.ids /\ (c.layout = "plain" => prog.builtins = <<>>))
Start == /\ ph = "call" /\ Len(wants) < Len(calls) /\ UNCHANGED <<i, prog, calls>>
         /\ IF Starts(Cur) THEN ph' = "run" /\ s' = TLCEval(Load(prog, IF prog.v = 1 THEN 0 ELSE prog.ids[NameOf(Cur)])) /\ UNCHANGED wants
            ELSE wants' = Append(wants, [s |-> "err"]) /\ UNCHANGED <<ph, s>>
Run == ph = "run" /\ s.ok /\ s.pc # s.end /\ s' = TLCEval(RStep(prog, s)) /\ UNCHANGED <<ph, i, prog, calls, wants>>
Stop == /\ ph = "run" /\ (~s.ok \/ s.pc = s.end) /\ ph' = "call" /\ UNCHANGED <<i, prog, calls, s>>
        /\ wants' = Append(wants, IF s.ok /\ Sound(prog, s) THEN TLCEval(Result(prog, s)) ELSE [s |-> "err"])
OutOf(k, w) == IF w.s = "err" THEN <<>>
               ELSE CASE w.out # <<>> /\ Pick(<<k, 72>>, 4) > 0 -> w.out
                      [] Pick(<<k, 73>>, 3) = 0 -> LET a == w.size + 1 + Pick(<<k, 74>>, 3) IN <<Hex(a), Hex(a + Pick(<<k, 75>>, 2))>>
                      [] OTHER -> <<>>
Finish == /\ ph = "call" /\ Len(wants) = Len(calls) /\ ph' = "end" /\ UNCHANGED <<i, prog, calls, wants, s>>
          /\ \E t \in {TLCEval(Text(prog))} :
               /\ Emit([k |-> "program", v |-> prog.v, text |-> t, calls |-> calls, argcalls |-> << [out |-> <<>>], [out |-> OutOf(i, wants[1])] >>, want |-> wants])
               /\ Emit([k |-> "program", v |-> prog.v, text |-> Unloadable(t, <<i, 76>>), calls |-> <<calls[1]>>, argcalls |-> << [out |-> <<>>] >>, want |-> <<[s |-> "err"]>>])

\* what is known stays known
KnownStays == [][ph = "run" /\ ph' = "run" => \A a \in DOMAIN s.mem : a \in DOMAIN s'.mem /\ s'.mem[a] = s.mem[a]]_vars
\* a finished run is a run on flat memory, that goes from the entry point to the end
OnFlatMemory ==
    ph = "call" /\ Len(wants) > 0 /\ wants[Len(wants)].s = "ok" =>
        LET w == wants[Len(wants)]
            m == TLCEval([a \in {ToInt(w.cells[k][1]) : k \in 1..Len(w.cells)} |-> w.cells[CHOOSE k \in 1..Len(w.cells) : ToInt(w.cells[k][1]) = a][2]])
            r(k) == [pc |-> ToInt(w.regs[k][1]), ap |-> ToInt(w.regs[k][2]), fp |-> ToInt(w.regs[k][3])]
        IN /\ \A k \in 1..(Len(w.regs) - 1) : LET x == Step(m, r(k)) IN x.ok /\ x.next = r(k + 1)
           /\ LET x == Step(m, r(Len(w.regs))) IN x.ok /\ x.next.pc = ToInt(w.stop)
           /\ \A k \in 1..Len(prog.data) : m[k] = prog.data[k]

\* judging
Differs(c, w, o) ==
    CASE o.s = "panic" -> {"panic: " \o o.m}
      [] w.s = "err" -> IF o.s = "err" THEN {} ELSE {"not an error"}
      [] o.s # "ok" -> {"an error"}
      [] OTHER -> {f \in {"regs", "size", "rc"} : w[f] # o[f]}
                  \cup (IF {w.cells[k] : k \in 1..Len(w.cells)} = {o.cells[k] : k \in 1..Len(o.cells)} THEN {} ELSE {"cells"})
                  \cup (IF o.asked = c.layout THEN {} ELSE {"layout"})
Check == /\ MODE = "chk" /\ ph = "start" /\ ph' = "end" /\ UNCHANGED <<i, prog, calls, wants, s>>
         /\ \E r \in {TLCEval(Recs[i])} :
              Emit([id |-> r.id, n |-> Len(r.runs) + Len(r.args), steps |-> Len(r.runs) + Len(r.args),
                    oks |-> Cardinality({k \in 1..Len(r.runs) : r.runs[k].s = "ok"}),
                    bad |-> UNION {{y \o ToJson(r.calls[k]) : y \in Differs(r.calls[k], r.want[k], r.runs[k])} : k \in 1..Len(r.calls)}
                            \* the arguments, in full, are checked as a trace (CairoTrace)
                            \cup {"arguments: " \o r.args[k].s : k \in {k \in 1..Len(r.args) : r.args[k].s # r.want[1].s}}])
Next == Create \/ Start \/ Run \/ Stop \/ Finish \/ Check
Spec == Init /\ [][Next]_vars
=============================================================================
