------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* Trace and memory files: how they are written, read and looked up.       *)
(*                                                                         *)
(* A session is a writer with a byte buffer in front of a destination      *)
(* (memory, a file, or a file that refuses to be written), the operations  *)
(* on it, and what reading the destination back gives.  Beside the         *)
(* sessions there are byte strings of every length to be imported, and     *)
(* traces to be looked up in a memory.                                     *)
(***************************************************************************)
EXTENDS Words, Wire

(***************************************************************************)
(* The formats.                                                            *)
(***************************************************************************)
EncTrace(rows) == BCat(TLCEval([j \in 1..Len(rows) |-> Le(rows[j][2], 8) \o Le(rows[j][3], 8) \o Le(rows[j][1], 8)]))
\* cells : the cell at address 0, 1, ..., each <<>> or <<value>>
EncMemory(cells) == BCat(TLCEval([j \in 1..Len(cells) |-> IF cells[j] = <<>> THEN "" ELSE Le(Hex(j - 1), 8) \o Le(cells[j][1], 32)]))
TraceRows(b) == TLCEval([j \in 1..(BLen(b) \div 24) |->
                    LET w(n) == NatLe(BSub(b, 24 * (j - 1) + 8 * n, 8)) IN <<w(2), w(0), w(1)>>])
MemRows(b) == TLCEval([j \in 1..(BLen(b) \div 40) |->
                    <<NatLe(BSub(b, 40 * (j - 1), 8)), NMod(NatLe(BSub(b, 40 * (j - 1) + 8, 32)), WP)>>])
\* the memory as a function: the last record of an address counts
Cells(b) == TLCEval(PmMap(MemRows(b)))
WholeTrace(b) == BLen(b) % 24 = 0
WholeMemory(b) == BLen(b) % 40 = 0

(***************************************************************************)
(* What an import gives.  c : [what, b, src] with src in {"bytes", "file", *)
(* "missing", "dir"}; o : the outcome.                                     *)
(***************************************************************************)
Unreadable(c) == c.src \in {"missing", "dir"}
\* Large files hold their records by a rule, so that their content needs no text: register row j
\* (from 0) is ap 3j+1, fp 7j+2, pc 5j+3; memory record j is address j mod m, value 9j+4.  c.cut
\* bytes are added or taken off at the end, and c.at says which rows or addresses are asked for.
Lump(c) == Has(c, "n")
Half(n) == IF n % 2 = 0 THEN NMul(Hex(n \div 2), Hex(n - 1)) ELSE NMul(Hex(n), Hex((n - 1) \div 2))
LumpRow(c, j) == IF j < c.n THEN <<Hex(5 * j + 3), Hex(3 * j + 1), Hex(7 * j + 2)>> ELSE <<>>
LumpCell(c, a) == IF a < c.m /\ a < c.n THEN <<Hex(9 * (a + c.m * ((c.n - 1 - a) \div c.m)) + 4)>> ELSE <<>>
ImportedLump(c, o) ==
    IF c.cut # 0 THEN IF Has(o, "err") /\ o.err = "IncorrectNumberOfBytes" THEN {} ELSE {"size"}
    ELSE IF Has(o, "err") THEN {"refused"}
    ELSE IF c.what = "regs"
    THEN (IF o.steps = c.n THEN {} ELSE {"steps"})
         \cup (IF o.sum = NAdd(NMul("f", Half(c.n)), Hex(6 * c.n)) THEN {} ELSE {"sum of the rows"})
         \cup (IF Len(o.at) = Len(c.at) /\ \A j \in 1..Len(c.at) : o.at[j] = LumpRow(c, c.at[j]) THEN {} ELSE {"rows"})
    ELSE (IF o.len = Min({c.n, c.m}) THEN {} ELSE {"len"})
         \cup (IF Len(o.at) = Len(c.at) /\ \A j \in 1..Len(c.at) : o.at[j] = LumpCell(c, c.at[j]) THEN {} ELSE {"cells"})
Imported(c, o) ==
    CASE Has(o, "panic") -> {"panic"}
      [] Lump(c) -> ImportedLump(c, o)
      [] Unreadable(c) -> IF Has(o, "err") /\ o.err = "FileError" THEN {} ELSE {"unreadable"}
      [] c.what = "regs" ->
           IF ~WholeTrace(c.b) THEN IF Has(o, "err") /\ o.err = "IncorrectNumberOfBytes" THEN {} ELSE {"size"}
           ELSE IF Has(o, "err") THEN {"refused"}
           ELSE (IF o.rows = TraceRows(c.b) THEN {} ELSE {"rows"}) \cup (IF o.steps = Len(TraceRows(c.b)) THEN {} ELSE {"steps"})
      [] c.what = "mem" ->
           IF ~WholeMemory(c.b) THEN IF Has(o, "err") /\ o.err = "IncorrectNumberOfBytes" THEN {} ELSE {"size"}
           ELSE IF Has(o, "err") THEN {"refused"}
           ELSE LET m == Cells(c.b)
                IN (IF {o.cells[j] : j \in 1..Len(o.cells)} = {<<a, m[a]>> : a \in DOMAIN m} THEN {} ELSE {"cells"})
                   \cup (IF o.len = Cardinality(DOMAIN m) THEN {} ELSE {"len"})
                   \cup (IF o.empty = (DOMAIN m = {}) THEN {} ELSE {"empty"})
                   \cup (IF \A j \in 1..Len(o.gets) : o.gets[j][2] = IF o.gets[j][1] \in DOMAIN m THEN <<m[o.gets[j][1]]>> ELSE <<>> THEN {} ELSE {"get"})

Word8(q) == Word(q)
Value32(q) == LET w == Pick(q \o <<1>>, 4)
              IN CASE w = 0 -> PickOf(q \o <<2>>, <<"0", "1", NSub(WP, "1"), WP, NAdd(WP, "1"), NSub(Pow2(256), "1"), Pow2(255), Pow2(64), Pow2(192), NMul(WP, "1f")>>)
                   [] OTHER -> NatBe(Hash(q \o <<3>>))
\* n records, addresses often repeated; then the length is disturbed by d bytes
Records(what, n, q) ==
    BCat(TLCEval([j \in 1..n |-> IF what = "regs" THEN Le(Word8(q \o <<j, 1>>), 8) \o Le(Word8(q \o <<j, 2>>), 8) \o Le(Word8(q \o <<j, 3>>), 8)
                                 ELSE Le(IF Pick(q \o <<j, 4>>, 3) = 0 THEN Word8(q \o <<j, 5>>) ELSE Hex(Pick(q \o <<j, 6>>, 5)), 8) \o Le(Value32(q \o <<j, 7>>), 32)]))
Disturb(b, d, q) == IF d >= 0 THEN b \o BSub(Hash(q) \o Hash(q \o <<1>>), 0, d) ELSE BSub(b, 0, Max({0, BLen(b) + d}))
Batch == 60
Case(q) ==
    LET what == PickOf(q \o <<1>>, <<"regs", "mem">>)
        n == PickOf(q \o <<2>>, <<0, 1, 1, 2, 3, 5, 8, 30>>)
        d == PickOf(q \o <<3>>, <<0, 0, 0, 1, -1, 8, -8, 16, 24, -24, 32, 40, -40>> \o << Pick(q \o <<4>>, 64), -Pick(q \o <<5>>, 64) >>)
        src == PickOf(q \o <<6>>, <<"bytes", "bytes", "bytes", "bytes", "bytes", "file", "file", "file", "missing", "dir">>)
    IN [what |-> what, src |-> src, b |-> Disturb(Records(what, n, q \o <<7>>), d, q \o <<8>>)]
\* the first scenarios hold every length up to 130 bytes
CasesOf(k) == IF k < 2 THEN [j \in 1..131 |-> [what |-> <<"regs", "mem">>[k + 1], src |-> "bytes", b |-> BSub(Records("regs", 6, <<k, j>>), 0, j - 1)]]
              ELSE [j \in 1..Batch |-> Case(<<k, j, 10>>)]

LumpCase(q) ==
    LET what == PickOf(q \o <<1>>, <<"regs", "mem">>)
        n == PickOf(q \o <<2>>, <<255, 256, 257, 1000, 4096, 5000, 32769, 65535, 65536, 65537, 70001>>)
        from == PickOf(q \o <<4>>, <<"bytes", "file", "vec">>)
        \* "vec": the bytes are those the runner's writer makes of the records (an address each)
        m == IF from = "vec" THEN n ELSE PickOf(q \o <<3>>, <<n, n, n, 1, 2, 256, 4096, 65536>>)
    IN [what |-> what, src |-> from, b |-> "", n |-> n, m |-> m,
        cut |-> PickOf(q \o <<5>>, <<0, 0, 0, 0, 0, 1, -1, 8, -8>>),
        at |-> <<0, 1, 254, 255, 256, 257, m - 1, m, n \div 2, n - 2, n - 1, n, 4095, 4096, 32767, 32768, 65535, 65536, Pick(q \o <<6>>, n), Pick(q \o <<7>>, n)>>]
\* trace records are 24 bytes and memory records 40: none of the cuts is a whole number of records
Lumps == 3

(***************************************************************************)
(* Looking a trace up in a memory.                                         *)
(***************************************************************************)
\* words whose groups are sometimes invalid
SomeWord(q) == IF Pick(q \o <<1>>, 5) > 0
               THEN Encode([dr |-> Pick(q \o <<2>>, 2), r0 |-> Pick(q \o <<3>>, 2), s1 |-> PickOf(q \o <<4>>, <<0, 1, 2, 4>>), rl |-> Pick(q \o <<5>>, 3),
                            pu |-> PickOf(q \o <<6>>, <<0, 1, 2, 4>>), au |-> Pick(q \o <<7>>, 3), oc |-> PickOf(q \o <<8>>, <<0, 1, 2, 4>>),
                            o |-> [j \in 1..3 |-> Pick(q \o <<9, j>>, 65536) - 32768]])
               ELSE NLow(NatBe(BSub(Hash(q \o <<10>>), 0, 8)), 63)
Lookup(q) ==
    LET n == 1 + Pick(q \o <<20>>, 5)
    IN [mem |-> [j \in 1..n |-> <<Hex(j), SomeWord(q \o <<21, j>>)>>],
        regs |-> [j \in 1..Pick(q \o <<22>>, 7) |-> <<IF Pick(q \o <<23, j>>, 12) = 0 THEN PickOf(q \o <<24, j>>, <<"0", Hex(n + 1), "ffffffffffffffff">>)
                                                      ELSE Hex(1 + Pick(q \o <<25, j>>, n)), Word8(q \o <<26, j>>), Word8(q \o <<27, j>>)>>]]
WordAt(L, pc) == LET S == {j \in 1..Len(L.mem) : L.mem[j][1] = pc} IN IF S = {} THEN <<>> ELSE <<L.mem[CHOOSE j \in S : TRUE][2]>>
\* o : [ok |-> 1, items] or [ok |-> 0, err] or [ok |-> 2]
LookedUp(L, o) ==
    LET w(j) == WordAt(L, L.regs[j][1])
        wrong == {j \in 1..Len(L.regs) : w(j) = <<>> \/ ~Valid(Groups(w(j)[1]))}
    IN IF wrong = {}
       THEN IF o.ok = 1 /\ Len(o.items) = Len(L.regs) /\ \A j \in 1..Len(L.regs) : Right(w(j)[1], o.items[j]) THEN {} ELSE {"lookup"}
       ELSE IF o.ok = 0 /\ o.err \in UNION {IF w(j) = <<>> THEN {"InstructionNotFound"} ELSE Invalid(Groups(w(j)[1])) : j \in wrong} THEN {} ELSE {"lookup error"}

(***************************************************************************)
(* Writer sessions.                                                        *)
(*   to : "vec", "file" or "refuses" (a file opened for reading), cap the  *)
(*   size of the buffer in front of the file, pre what a vec holds before. *)
(***************************************************************************)
VARIABLES st,      \* what the specification is doing
          i,       \* which scenario or record
          w        \* the writer: [to, cap, dest, buf, ok, written, ops, seen, n]
vars == <<st, i, w>>

Session(k) == LET to == PickOf(<<k, 30>>, <<"vec", "vec", "file", "file", "refuses">>)
              IN [to |-> to, cap |-> PickOf(<<k, 31>>, <<0, 1, 8, 40, 64, 1000>>),
                  pre |-> IF to = "vec" THEN BSub(Hash(<<k, 32>>), 0, PickOf(<<k, 33>>, <<0, 0, 0, 5, 24>>)) ELSE "",
                  len |-> 1 + Pick(<<k, 34>>, 7)]
\* vec writers also encode traces and memories
OpOf(k, n) ==
    LET s == Session(k)
        c == IF s.to = "vec" THEN Pick(<<k, n, 35>>, 5) ELSE 3 + Pick(<<k, n, 36>>, 2)
        size == PickOf(<<k, n, 37>>, <<0, 1, 2, 4, 6>>)
    IN CASE c \in {0, 1} -> [o |-> "trace", rows |-> [j \in 1..size |-> <<Word8(<<k, n, j, 38>>), Word8(<<k, n, j, 39>>), Word8(<<k, n, j, 40>>)>>]]
         [] c = 2 -> [o |-> "mem", cells |-> [j \in 1..size |-> IF Pick(<<k, n, j, 41>>, 3) = 0 THEN <<>> ELSE <<Felt(<<k, n, j, 42>>)>>]]
         [] c = 3 -> [o |-> "chunk", b |-> BSub(BCat([j \in 1..40 |-> Hash(<<k, n, j, 43>>)]), 0, PickOf(<<k, n, 44>>, <<0, 1, 3, 7, 8, 9, 24, 40, 63, 64, 65, 1000, 1200>>))]
         [] c = 4 -> [o |-> "flush"]
BytesOf(op) == CASE op.o = "trace" -> EncTrace(op.rows) [] op.o = "mem" -> EncMemory(op.cells) [] op.o = "chunk" -> op.b [] op.o = "flush" -> ""
NewWriter(s) == [to |-> s.to, cap |-> s.cap, dest |-> s.pre, buf |-> "", ok |-> TRUE, written |-> 0, ops |-> <<>>, seen |-> <<>>, n |-> 0]
\* one operation.  A chunk that does not fit in the buffer empties it first, and goes straight
\* through when it is as large as the buffer; a destination that refuses fails the write, which
\* reports how much was taken before.
Room(x) == x.cap - BLen(x.buf)
WriteTo(x, b) ==
    LET big == BLen(b) >= Room(x)
        spill == big /\ BLen(b) > Room(x) /\ x.buf # ""
        through == big /\ BLen(b) >= x.cap /\ b # ""
    IN CASE x.to = "vec" -> [x EXCEPT !.dest = @ \o b]
         [] x.to = "refuses" /\ (spill \/ through) -> [x EXCEPT !.ok = FALSE]
         [] OTHER -> LET y == IF spill THEN [x EXCEPT !.dest = @ \o x.buf, !.buf = ""] ELSE x
                     IN [(IF through THEN [y EXCEPT !.dest = @ \o b] ELSE [y EXCEPT !.buf = @ \o b]) EXCEPT !.written = @ + BLen(b)]
FlushTo(x) == IF x.to = "refuses" /\ x.buf # "" THEN [x EXCEPT !.ok = FALSE] ELSE [x EXCEPT !.dest = @ \o x.buf, !.buf = ""]
Perform(x, op) == LET y == IF op.o = "flush" THEN FlushTo(x) ELSE WriteTo(x, BytesOf(op))
                  IN [y EXCEPT !.ops = Append(@, op), !.n = @ + 1]

Init == /\ st = "start" /\ w = <<>>
        /\ i \in IF MODE = "gen" THEN 0..(SIZE - 1) ELSE 1..Len(Recs)
Imports == /\ MODE = "gen" /\ st = "start" /\ st' = "open"
           /\ Emit([k |-> "imports", cases |-> CasesOf(i)])
           /\ Emit([k |-> "imports", cases |-> [j \in 1..Lumps |-> LumpCase(<<i, j, 12>>)]])
           /\ Emit([k |-> "lookups", cases |-> [j \in 1..Batch |-> Lookup(<<i, j, 11>>)]])
           /\ w' = NewWriter(Session(i)) /\ UNCHANGED i
Write == /\ MODE = "gen" /\ st = "open" /\ w.ok /\ w.n < Session(i).len /\ UNCHANGED <<st, i>>
         /\ w' = TLCEval(Perform(w, OpOf(i, w.n)))
\* every session ends with a flush
Close == /\ MODE = "gen" /\ st = "open" /\ (~w.ok \/ w.n >= Session(i).len) /\ st' = "end" /\ UNCHANGED i
         /\ w' = IF w.ok THEN Perform(w, [o |-> "flush"]) ELSE w
         /\ Emit([k |-> "writer", to |-> w.to, cap |-> w.cap, pre |-> Session(i).pre, ops |-> w'.ops])

\* nothing is lost or reordered on the way
RECURSIVE AllBytes(_)
AllBytes(ops) == IF ops = <<>> THEN "" ELSE BytesOf(Head(ops)) \o AllBytes(Tail(ops))
Faithful == st \in {"open", "end"} /\ MODE = "gen" /\ w.to # "refuses" => Session(i).pre \o AllBytes(w.ops) = w.dest \o w.buf
Flushed == st = "end" /\ MODE = "gen" /\ w.ok => w.buf = ""
\* reading back what was written is the identity
ReadBack == st \in {"open", "end"} /\ MODE = "gen" /\ w.ops # <<>> =>
               LET op == w.ops[Len(w.ops)]
                   b == BytesOf(op)
               IN CASE op.o = "trace" -> WholeTrace(b) /\ TraceRows(b) = op.rows
                    [] op.o = "mem" -> WholeMemory(b) /\ {<<Hex(j - 1), op.cells[j][1]>> : j \in {j \in 1..Len(op.cells) : op.cells[j] # <<>>}} = {MemRows(b)[j] : j \in 1..Len(MemRows(b))}
                    [] OTHER -> TRUE

\* judging: the specification's writer takes the same operations
RECURSIVE After(_, _)
After(x, ops) == IF ops = <<>> \/ ~x.ok THEN x ELSE After(TLCEval(Perform(x, Head(ops))), Tail(ops))
Written(r) ==
    LET x == After(NewWriter([to |-> r.to, cap |-> r.cap, pre |-> r.pre]), r.ops)
    IN CASE ~x.ok -> IF ~Has(r.out, "err") THEN {"write not refused"}
                     ELSE (IF r.out.op = x.n - 1 THEN {} ELSE {"refused elsewhere"})
                          \* a failing flush has no index
                          \cup (IF x.ops[x.n].o = "flush" \/ r.out.index = x.written THEN {} ELSE {"index"})
         [] Has(r.out, "err") -> {"write refused"}
         [] OTHER -> (IF r.out.content = x.dest THEN {} ELSE {"content"})
                     \cup {"regs " \o y : y \in Imported([what |-> "regs", src |-> "bytes", b |-> x.dest], r.out.regs)}
                     \cup {"mem " \o y : y \in Imported([what |-> "mem", src |-> "bytes", b |-> x.dest], r.out.mem)}
Judge(r) == CASE Has(r, "panic") -> {"panic " \o r.panic}
              [] r.k = "imports" -> UNION {{y \o " " \o ToString(j) : y \in Imported(r.cases[j], r.res[j])} : j \in 1..Len(r.cases)}
              [] r.k = "lookups" -> UNION {{y \o " " \o ToString(j) : y \in LookedUp(r.cases[j], r.res[j])} : j \in 1..Len(r.cases)}
              [] r.k = "writer" -> Written(r)
Count(r) == IF r.k = "writer" THEN Len(r.ops) ELSE Len(r.cases)
Oks(r) == IF r.k = "imports" THEN Cardinality({j \in 1..Len(r.res) : ~Has(r.res[j], "err")})
          ELSE IF r.k = "lookups" THEN Cardinality({j \in 1..Len(r.res) : r.res[j].ok = 1}) ELSE IF Has(r.out, "err") THEN 0 ELSE 1
Check == /\ MODE = "chk" /\ st = "start" /\ st' = "end" /\ UNCHANGED <<i, w>>
         /\ \E r \in {TLCEval(Recs[i])} : Emit([id |-> r.id, bad |-> Judge(r), n |-> Count(r), steps |-> Count(r), oks |-> Oks(r)])
Next == Imports \/ Write \/ Close \/ Check
Spec == Init /\ [][Next]_vars
=============================================================================
