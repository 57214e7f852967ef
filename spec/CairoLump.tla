----------------------------- MODULE CairoLump ------------------------------
(***************************************************************************)
(* Runs of tens of thousands of steps: a loop of two instructions whose    *)
(* registers and memory are given by a rule that the harness knows too.    *)
(* Of the traces built from them some rows are compared with the machine's *)
(* and the rest is summed up (the accessed addresses and offsets as        *)
(* intervals).                                                             *)
(*   1: [ap] = [ap - 1] + 1, ap++        (immediate at 2)                  *)
(*   3: jmp rel -2                       (immediate at 4)                  *)
(* Cell a is the program's up to 4, and from base - 1 on a + c.v; what     *)
(* lies between is never accessed.                                         *)
(* Shorter runs have so many output cells that the room for them in the    *)
(* trace just fits.  Short runs are also laid out far up in the address    *)
(* space (code from hi[1] on, stack from hi[2] on), where the gaps leave   *)
(* no room for a main trace.                                               *)
(***************************************************************************)
EXTENDS CairoMachine, Env

Loop == <<Encode([dr |-> 0, r0 |-> 0, s1 |-> 1, rl |-> 1, pu |-> 0, au |-> 2, oc |-> 4, o |-> <<0, -1, 1>>]), "1",
          Encode([dr |-> 1, r0 |-> 1, s1 |-> 1, rl |-> 0, pu |-> 2, au |-> 0, oc |-> 0, o |-> <<-1, -1, 1>>]), FE(-2)>>
Reg(c, k) == [pc |-> IF k % 2 = 0 THEN 1 ELSE 3, ap |-> c.base + ((k + 1) \div 2), fp |-> c.base]
Top(c) == Reg(c, c.n - 1).ap - ((c.n - 1) % 2)
MemOf(c) == [a \in 1..Top(c) |-> IF a <= 4 THEN Loop[a] ELSE FE(a + c.v)]
Case(q) ==
    LET up == q[1] \in 2..13
        \* so many output cells that room for them just fits, or just does not
        fit == q[1] > 13
        t == 2 ^ (9 + Pick(q \o <<10>>, 4))
        cells == 100 + Pick(q \o <<11>>, t \div 4)
        far == PickOf(q \o <<7>>, <<"100000000", "200000007", "1000000000000", "7fffffffffffff00", "8000000000000000", "ffffffffffff0000">>)
        n == IF up THEN 1 + Pick(q \o <<1>>, 40) ELSE IF fit THEN t - ((4 + cells) \div 4) + PickOf(q \o <<1>>, <<-2, -1, 0, 0, 1>>) ELSE PickOf(q \o <<1>>, <<65536, 65537, 65539, 66001, 70001>>)
        base == 6 + PickOf(q \o <<2>>, <<0, 1, 100, 300>>)
        out == IF fit THEN cells ELSE PickOf(q \o <<3>>, <<0, 3, 257>>)
    IN [n |-> n, base |-> base, v |-> Pick(q \o <<4>>, 1000), prog |-> Loop,
        top |-> base - 1 + (n + 1) \div 2,
        hi |-> IF up THEN <<PickOf(q \o <<8>>, <<"0", "100000000", "1000000003", "8000000000000000", far>>), PickOf(q \o <<9>>, <<far, far, "0">>)>> ELSE <<"0", "0">>,
        out |-> IF out = 0 \/ up THEN <<>> ELSE <<base, base + out>>,
        at |-> IF up THEN [k \in 1..n |-> k - 1] ELSE IF fit THEN <<0, 255, 256, n - 1>> ELSE
               <<0, 1, 2, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, n - 2, n - 1, Pick(q \o <<5>>, n), Pick(q \o <<6>>, n)>>]

VARIABLES st, i
vars == <<st, i>>
Init == st = "start" /\ i \in IF MODE = "chk" THEN 1..Len(Recs) ELSE (1..SIZE) \X (1..21)
Gen == /\ MODE = "gen" /\ st = "start" /\ st' = "made" /\ UNCHANGED i /\ Emit([k |-> "runlump", c |-> Case(<<i[2], i[1], 77>>)])
\* the rule is a run of the machine
Runs == st = "made" => LET c == Case(<<i[2], i[1], 77>>)
                       IN /\ c.top = Top(c)
                          /\ \A x \in 1..Len(c.at) : LET s == TLCEval(Step(MemOf(c), Reg(c, c.at[x]))) IN s.ok /\ s.next = Reg(c, c.at[x] + 1)

Is(b, x) == IF b THEN {} ELSE {x}
Moved(c, a) == IF ToInt(a) <= 4 THEN NAdd(a, c.hi[1]) ELSE NAdd(a, c.hi[2])
Row(c, k) ==
    LET s == TLCEval(Step(MemOf(c), Reg(c, k)))
        w == TLCEval(StepRow(MemOf(c), Reg(c, k), s, k = c.n - 1))
    IN TLCEval([x \in 1..Len(w) |-> IF x - 1 \in 17..22 THEN Moved(c, w[x]) ELSE w[x]])
PubOk(c, p, lim) ==
    LET m == MemOf(c)
        cells == 1..4 \cup (IF c.out = <<>> THEN {} ELSE c.out[1]..(c.out[2] - 1))
        z == Reg(c, c.n - 1)
        at(a) == Moved(c, FE(a))
    IN /\ p.pc_init = at(1) /\ p.ap_init = at(c.base) /\ p.fp_init = at(c.base) /\ p.pc_final = at(z.pc) /\ p.ap_final = at(z.ap)
       /\ p.steps = Hex(c.n) /\ p.rc = <<>> /\ p.out = [k \in 1..Len(c.out) |-> Hex(c.out[k])] /\ p.rcmin = lim[1] /\ p.rcmax = lim[2]
       /\ {p.pm[k] : k \in 1..Len(p.pm)} = {<<Hex(a), m[a]>> : a \in cells} /\ Len(p.pm) = Cardinality(cells)
Bad1(c, r) ==
    IF Has(r, "panic") THEN {"build:" \o r.panic}
    ELSE IF c.hi # <<"0", "0">>
    THEN LET want == TLCEval([x \in 1..Len(c.at) |-> TLCEval(Row(c, c.at[x]))])
         IN Is(r.steps = c.n, "exec:rows")
            \cup {"exec:row " \o ToString(c.at[x]) : x \in {x \in 1..Len(c.at) : r.exec[x] # want[x]}}
            \cup Is(PubOk(c, r.pub0, <<<<>>, <<>>>>), "pub0")
    ELSE LET want == TLCEval([x \in 1..Len(c.at) |-> TLCEval(Row(c, c.at[x]))])
             T == r.len
         IN Is(r.steps = c.n, "exec:rows")
            \cup {"exec:row " \o ToString(c.at[x]) : x \in {x \in 1..Len(c.at) : r.exec[x] # want[x]}}
            \cup {"main:row " \o ToString(c.at[x]) : x \in {x \in 1..Len(c.at) : r.main[x] # want[x]}}
            \cup Is(T >= c.n /\ T = 2 ^ (NBits(Hex(T)) - 1), "main:length")
            \* the offsets are -1, 0 and 1, with nothing in between to fill
            \cup Is(r.offs = <<<<32767, 32769>>>>, "main:offsets")
            \* with the dummy accesses, to address 0
            \cup Is(r.addrs = <<<<0, c.top>>>>, "main:addresses")
            \cup Is(r.zeros >= Len(r.pub.pm), "main:dummies")
            \cup Is(r.sel = c.n - 1, "main:selector")
            \cup Is(PubOk(c, r.pub0, <<<<>>, <<>>>>), "pub0")
            \cup Is(PubOk(c, r.pub, <<<<"7fff">>, <<"8001">>>>), "pub")
Check == /\ MODE = "chk" /\ st = "start" /\ st' = "end" /\ UNCHANGED i
         /\ Emit([id |-> Recs[i].id, bad |-> Bad1(Recs[i].c, Recs[i]), n |-> 1, oks |-> 1, steps |-> 2 * Len(Recs[i].c.at)])
Next == Gen \/ Check
Spec == Init /\ [][Next]_vars
=============================================================================
