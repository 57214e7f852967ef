-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The byte formats of proofs and of public inputs: the encoder, and the   *)
(* decoder as it reads any byte string, field by field.                    *)
(*                                                                         *)
(* A proof is [T, roots, fd, fw, croot, h1, h2, froots, last, q, o, nonce] *)
(* with numbers in hexadecimal, fd and fw the out-of-domain frame's values *)
(* and width, q a sequence of [ps, es, e, p] and o of [cp, ce, co, tp, te].*)
(* Public inputs are as in CairoAir, pm a sequence in the order written.   *)
(***************************************************************************)
EXTENDS Env, FiniteSetsExt

WP == "800000000000011000000000000000000000000000000000000000000000001"
(***************************************************************************)
(* Encoding: a sequence of tokens, <<bytes, TRUE>> for a length or another *)
(* 8-byte integer that steers decoding, <<bytes, FALSE>> otherwise.        *)
(***************************************************************************)
U(n) == << <<Be(n, 8), TRUE>> >>
Cnt(s) == U(Hex(Len(s)))
B(b) == << <<b, FALSE>> >>
F(v) == B(Be(v, 32))
Bytes(toks) == BCat(TLCEval([k \in 1..Len(toks) |-> toks[k][1]]))
BSum(toks) == FoldLeft(LAMBDA a, t : a + BLen(t[1]), 0, toks)
\* halves first: a list may have tens of thousands of items
RECURSIVE CatOf(_, _, _)
CatOf(s, lo, hi) == IF hi - lo < 40 THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, SubSeq(s, lo, hi))
                    ELSE LET m == (lo + hi) \div 2 IN TLCEval(CatOf(s, lo, m) \o CatOf(s, m + 1, hi))
Cat(s) == LET t == TLCEval(s) IN CatOf(t, 1, Len(t))
Hs(s) == TLCEval([k \in 1..Len(s) |-> <<s[k], FALSE>>])
Fs(s) == TLCEval([k \in 1..Len(s) |-> <<Be(s[k], 32), FALSE>>])
PathT(p) == Cnt(p) \o Hs(p)
PathsT(s) == Cnt(s) \o Cat([k \in 1..Len(s) |-> PathT(s[k])])
FeltLen == U("20")
FrameT(d, w) == Cnt(d) \o (IF d = <<>> THEN U("0") ELSE FeltLen) \o Fs(d) \o U(w)
QueryT(q) == PathsT(q.ps) \o (IF q.e = <<>> /\ q.es = <<>> THEN U("0") ELSE FeltLen)
             \o Cnt(q.es) \o Fs(q.es) \o Cnt(q.e) \o Fs(q.e) \o PathsT(q.p)
OpenT(o) == PathT(o.cp) \o FeltLen \o F(o.ce) \o F(o.co) \o PathsT(o.tp) \o Cnt(o.te) \o Fs(o.te)
\* preceded by its length in bytes
Sized(t) == U(Hex(BSum(t))) \o t
ProofT(p) ==
    U(p.T) \o Cnt(p.roots) \o Hs(p.roots) \o Sized(FrameT(p.fd, p.fw)) \o B(p.croot)
    \o FeltLen \o F(p.h1) \o F(p.h2) \o Cnt(p.froots) \o Hs(p.froots) \o F(p.last)
    \o Cnt(p.q) \o Cat([k \in 1..Len(p.q) |-> Sized(QueryT(p.q[k]))])
    \o Cnt(p.o) \o Cat([k \in 1..Len(p.o) |-> Sized(OpenT(p.o[k]))])
    \o U(p.nonce)
OptT(x) == IF x = <<>> THEN B("00") ELSE B("01") \o B(Be(x[1], 2))
SegT(t, r) == B(t) \o U(r[1]) \o U(r[2])
\* rcfirst: whether the range-check segment is written before the output segment
PubT(p, rcfirst) ==
    LET rc == IF p.rc = <<>> THEN <<>> ELSE SegT("00", p.rc)
        out == IF p.out = <<>> THEN <<>> ELSE SegT("01", p.out)
        n == (IF p.rc = <<>> THEN 0 ELSE 1) + (IF p.out = <<>> THEN 0 ELSE 1)
    IN FeltLen \o F(p.pc_init) \o F(p.ap_init) \o F(p.fp_init) \o F(p.pc_final) \o F(p.ap_final)
       \o OptT(p.rcmin) \o OptT(p.rcmax) \o U(Hex(n)) \o (IF rcfirst THEN rc \o out ELSE out \o rc)
       \o Cnt(p.pm) \o Cat([k \in 1..Len(p.pm) |-> F(p.pm[k][1]) \o F(p.pm[k][2])]) \o U(p.steps)

(***************************************************************************)
(* Decoding.  A reader's state is [ok, p, v]: the position after what was  *)
(* read, and its value.  e is the end of the readable part.                *)
(***************************************************************************)
No == [ok |-> FALSE, p |-> 0, v |-> <<>>]
Yes(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
RdB(b, p, e, n) == IF p + n > e THEN No ELSE Yes(p + n, BSub(b, p, n))
RdU(b, p, e) == IF p + 8 > e THEN No ELSE Yes(p + 8, NatBe(BSub(b, p, 8)))
\* values wider than 32 bytes keep their first 32
RdF(b, p, e, fl) == IF NLt(Hex(e - p), fl) \/ NLt(fl, "20") THEN No
                    ELSE Yes(p + ToInt(fl), NMod(NatBe(BSub(b, p, 32)), WP))
RECURSIVE RdN(_, _, _, _, _, _, _), RdSized(_, _, _, _, _)
\* n items of a kind, appended to acc
RdItem(b, p, e, kind, fl) ==
    CASE kind = "hash" -> RdB(b, p, e, 32)
      [] kind = "felt" -> RdF(b, p, e, fl)
      [] kind = "path" -> LET c == RdU(b, p, e) IN IF c.ok THEN RdN(b, c.p, e, c.v, "hash", fl, <<>>) ELSE No
RdN(b, p, e, n, kind, fl, acc) ==
    \* every item takes a byte at least
    IF NLt(Hex(e - p), n) THEN No
    ELSE IF n = "0" THEN Yes(p, acc)
    ELSE LET x == TLCEval(RdItem(b, p, e, kind, fl))
         IN IF x.ok THEN RdN(b, x.p, e, NSub(n, "1"), kind, fl, Append(acc, x.v)) ELSE No
\* a count and the items
RdL(b, p, e, kind, fl) == LET c == RdU(b, p, e) IN IF c.ok THEN RdN(b, c.p, e, c.v, kind, fl, <<>>) ELSE No
\* the continuation style of a sequence of reads: each step adds its value
Then(x, y) == IF x.ok /\ y.ok THEN Yes(y.p, Append(x.v, y.v)) ELSE No
RdFrame(b, p, e) ==
    LET n  == RdU(b, p, e)
        fl == IF n.ok THEN RdU(b, n.p, e) ELSE No
        d  == IF fl.ok THEN TLCEval(RdN(b, fl.p, e, n.v, "felt", fl.v, <<>>)) ELSE No
        w  == IF d.ok THEN RdU(b, d.p, e) ELSE No
    IN IF w.ok THEN Yes(w.p, [fd |-> d.v, fw |-> w.v]) ELSE No
RdQuery(b, p, e) ==
    LET ps == TLCEval(RdL(b, p, e, "path", "0"))
        fl == IF ps.ok THEN RdU(b, ps.p, e) ELSE No
        es == IF fl.ok THEN TLCEval(RdL(b, fl.p, e, "felt", fl.v)) ELSE No
        ev == IF es.ok THEN TLCEval(RdL(b, es.p, e, "felt", fl.v)) ELSE No
        pp == IF ev.ok THEN TLCEval(RdL(b, ev.p, e, "path", "0")) ELSE No
    IN IF pp.ok THEN Yes(pp.p, [ps |-> ps.v, es |-> es.v, e |-> ev.v, p |-> pp.v]) ELSE No
RdOpen(b, p, e) ==
    LET cp == TLCEval(RdItem(b, p, e, "path", "0"))
        fl == IF cp.ok THEN RdU(b, cp.p, e) ELSE No
        ce == IF fl.ok THEN RdF(b, fl.p, e, fl.v) ELSE No
        co == IF ce.ok THEN RdF(b, ce.p, e, fl.v) ELSE No
        tp == IF co.ok THEN TLCEval(RdL(b, co.p, e, "path", "0")) ELSE No
        te == IF tp.ok THEN TLCEval(RdL(b, tp.p, e, "felt", fl.v)) ELSE No
    IN IF te.ok THEN Yes(te.p, [cp |-> cp.v, ce |-> ce.v, co |-> co.v, tp |-> tp.v, te |-> te.v]) ELSE No
\* items preceded by their size; an item may leave bytes unread
RdOne(b, p, e, kind) == IF kind = "query" THEN RdQuery(b, p, e) ELSE IF kind = "open" THEN RdOpen(b, p, e) ELSE RdFrame(b, p, e)
RdSize1(b, p, e, kind) ==
    LET s == RdU(b, p, e)
    IN IF ~s.ok \/ NLt(Hex(e - s.p), s.v) THEN No
       ELSE LET x == TLCEval(RdOne(b, s.p, s.p + ToInt(s.v), kind)) IN IF x.ok THEN Yes(s.p + ToInt(s.v), x.v) ELSE No
RdSized(b, p, e, n, kind) ==
    IF NLt(Hex(e - p), n) THEN No
    ELSE IF n = "0" THEN Yes(p, <<>>)
    ELSE LET x == TLCEval(RdSize1(b, p, e, kind))
             y == IF x.ok THEN TLCEval(RdSized(b, x.p, e, NSub(n, "1"), kind)) ELSE No
         IN IF y.ok THEN Yes(y.p, <<x.v>> \o y.v) ELSE No
Bad == [ok |-> FALSE]
DecProof(b) ==
    LET e  == BLen(b)
        t  == RdU(b, 0, e)
        rs == IF t.ok THEN TLCEval(RdL(b, t.p, e, "hash", "0")) ELSE No
        fr == IF rs.ok THEN TLCEval(RdSize1(b, rs.p, e, "frame")) ELSE No
        cr == IF fr.ok THEN RdB(b, fr.p, e, 32) ELSE No
        fl == IF cr.ok THEN RdU(b, cr.p, e) ELSE No
        h1 == IF fl.ok THEN RdF(b, fl.p, e, fl.v) ELSE No
        h2 == IF h1.ok THEN RdF(b, h1.p, e, fl.v) ELSE No
        fs == IF h2.ok THEN TLCEval(RdL(b, h2.p, e, "hash", "0")) ELSE No
        la == IF fs.ok THEN RdF(b, fs.p, e, fl.v) ELSE No
        nq == IF la.ok THEN RdU(b, la.p, e) ELSE No
        qs == IF nq.ok THEN TLCEval(RdSized(b, nq.p, e, nq.v, "query")) ELSE No
        no == IF qs.ok THEN RdU(b, qs.p, e) ELSE No
        os == IF no.ok THEN TLCEval(RdSized(b, no.p, e, no.v, "open")) ELSE No
    IN IF ~os.ok \/ os.p + 8 > e THEN Bad
       ELSE [ok |-> TRUE,
             v |-> [T |-> t.v, roots |-> rs.v, fd |-> fr.v.fd, fw |-> fr.v.fw, croot |-> cr.v, h1 |-> h1.v, h2 |-> h2.v,
                    froots |-> fs.v, last |-> la.v, q |-> qs.v, o |-> os.v, nonce |-> NatBe(BSub(b, e - 8, 8))]]
RdOpt(b, p, e) ==
    LET x == RdB(b, p, e, 1)
        y == RdB(b, p + 1, e, 2)
    IN IF ~x.ok THEN No ELSE IF x.v = "00" THEN Yes(x.p, <<>>)
       ELSE IF x.v = "01" /\ y.ok THEN Yes(y.p, <<NatBe(y.v)>>) ELSE No
RECURSIVE RdSegs(_, _, _, _, _), RdCells(_, _, _, _, _, _)
RdSegs(b, p, e, n, acc) ==
    IF NLt(Hex(e - p), n) THEN No
    ELSE IF n = "0" THEN Yes(p, acc)
    ELSE LET t == RdB(b, p, e, 1)
             s == RdU(b, p + 1, e)
             f == RdU(b, p + 9, e)
         IN IF f.ok /\ t.v \in {"00", "01"}
            THEN RdSegs(b, f.p, e, NSub(n, "1"), IF t.v = "00" THEN [acc EXCEPT !.rc = <<s.v, f.v>>, !.order = Append(@, "rc")]
                                                 ELSE [acc EXCEPT !.out = <<s.v, f.v>>, !.order = Append(@, "out")])
            ELSE No
RdCells(b, p, e, n, fl, acc) ==
    IF NLt(Hex(e - p), n) THEN No
    ELSE IF n = "0" THEN Yes(p, acc)
    ELSE LET x == RdF(b, p, e, fl)
             y == IF x.ok THEN RdF(b, x.p, e, fl) ELSE No
         IN IF y.ok THEN RdCells(b, y.p, e, NSub(n, "1"), fl, Append(acc, <<x.v, y.v>>)) ELSE No
DecPub(b) ==
    LET e  == BLen(b)
        fl == RdU(b, 0, e)
        r  == IF fl.ok THEN TLCEval(RdN(b, fl.p, e, "5", "felt", fl.v, <<>>)) ELSE No
        lo == IF r.ok THEN RdOpt(b, r.p, e) ELSE No
        hi == IF lo.ok THEN RdOpt(b, lo.p, e) ELSE No
        ns == IF hi.ok THEN RdU(b, hi.p, e) ELSE No
        sg == IF ns.ok THEN TLCEval(RdSegs(b, ns.p, e, ns.v, [rc |-> <<>>, out |-> <<>>, order |-> <<>>])) ELSE No
        nm == IF sg.ok THEN RdU(b, sg.p, e) ELSE No
        pm == IF nm.ok THEN TLCEval(RdCells(b, nm.p, e, nm.v, fl.v, <<>>)) ELSE No
        st == IF pm.ok THEN RdU(b, pm.p, e) ELSE No
    IN IF ~st.ok THEN Bad
       ELSE [ok |-> TRUE, order |-> sg.v.order,
             v |-> [pc_init |-> r.v[1], ap_init |-> r.v[2], fp_init |-> r.v[3], pc_final |-> r.v[4], ap_final |-> r.v[5],
                    rcmin |-> lo.v, rcmax |-> hi.v, rc |-> sg.v.rc, out |-> sg.v.out, pm |-> pm.v, steps |-> st.v]]
Distinct(pm) == Cardinality({pm[k][1] : k \in 1..Len(pm)}) = Len(pm)
\* public inputs are maps: the order does not matter, a later entry replaces an earlier one
PmMap(pm) == LET as == {pm[k][1] : k \in 1..Len(pm)}
             IN [a \in as |-> pm[Max({k \in 1..Len(pm) : pm[k][1] = a})][2]]
SamePub(p, q) == /\ [p EXCEPT !.pm = <<>>] = [q EXCEPT !.pm = <<>>]
                 /\ IF Distinct(p.pm) /\ Distinct(q.pm) THEN {p.pm[k] : k \in 1..Len(p.pm)} = {q.pm[k] : k \in 1..Len(q.pm)}
                    ELSE PmMap(p.pm) = PmMap(q.pm)
Canonical(kind, b, d) ==
    d.ok /\ IF kind = "proof" THEN Bytes(ProofT(d.v)) = b
            ELSE Distinct(d.v.pm) /\ Len(d.order) = Cardinality({d.order[k] : k \in 1..Len(d.order)})
                 /\ Bytes(PubT(d.v, d.order # <<"out", "rc">>)) = b

(***************************************************************************)
(* Values to encode.                                                       *)
(***************************************************************************)
Felt(q) == LET w == Pick(q \o <<1>>, 3)
           IN IF w = 0 THEN PickOf(q \o <<2>>, <<"0", "1", NSub(WP, "1"), "ffffffffffffffff", "10000000000000000", Pow2(128), Pow2(192), Pow2(250)>>)
              ELSE NMod(NatBe(Hash(q \o <<3>>)), WP)
Word(q) == LET w == Pick(q \o <<4>>, 3)
           IN IF w = 0 THEN PickOf(q \o <<5>>, <<"0", "1", "8", "20", "ff", "100", "ffffffff", "100000000", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff">>)
              ELSE NatBe(BSub(Hash(q \o <<6>>), 0, 8))
Short(q) == PickOf(q \o <<7>>, <<0, 0, 1, 1, 2, 3>>)
\* in some values one list is long: its length does not fit a byte
LenOf(q, long) == IF q[1] % 12 = long THEN 250 + Pick(q \o <<98>>, 60) ELSE Short(q)
Many(n, f(_)) == TLCEval([k \in 1..n |-> TLCEval(f(k))])
HashesOf(q) == Many(Short(q), LAMBDA k : Hash(q \o <<8, k>>))
HashesIf(q, long) == Many(LenOf(q, long), LAMBDA k : Hash(q \o <<8, k>>))
PathsOf(q) == Many(Short(q), LAMBDA k : HashesOf(q \o <<9, k>>))
FeltsOf(q) == Many(Short(q), LAMBDA k : Felt(q \o <<10, k>>))
FeltsIf(q, long) == Many(LenOf(q, long), LAMBDA k : Felt(q \o <<10, k>>))
GenProof(q) ==
    [T |-> Word(q \o <<20>>), roots |-> HashesIf(q \o <<21>>, 1), fd |-> Many(IF q[1] % 12 = 2 THEN 300 ELSE PickOf(q \o <<22>>, <<0, 1, 4, 6, 7>>), LAMBDA k : Felt(q \o <<23, k>>)),
     fw |-> IF Pick(q \o <<24>>, 2) = 0 THEN "2" ELSE Word(q \o <<25>>), croot |-> Hash(q \o <<26>>), h1 |-> Felt(q \o <<27>>), h2 |-> Felt(q \o <<28>>),
     froots |-> HashesIf(q \o <<29>>, 3), last |-> Felt(q \o <<30>>),
     q |-> Many(LenOf(q \o <<31>>, 4), LAMBDA k : [ps |-> PathsOf(q \o <<32, k>>), es |-> FeltsIf(q \o <<33, k>>, 5), e |-> FeltsOf(q \o <<34, k>>), p |-> PathsOf(q \o <<35, k>>)]),
     o |-> Many(LenOf(q \o <<36>>, 6), LAMBDA k : [cp |-> HashesIf(q \o <<37, k>>, 7), ce |-> Felt(q \o <<38, k>>), co |-> Felt(q \o <<39, k>>),
                                                 tp |-> PathsOf(q \o <<40, k>>), te |-> FeltsIf(q \o <<41, k>>, 8)]),
     nonce |-> Word(q \o <<42>>)]
Dedup(pm) == SelectSeq(TLCEval([k \in 1..Len(pm) |-> <<pm[k][1], pm[k][2], \A j \in 1..(k - 1) : pm[j][1] # pm[k][1]>>]), LAMBDA x : x[3])
GenPub(q) ==
    LET opt(k) == IF Pick(q \o <<k>>, 3) = 0 THEN <<>> ELSE <<PickOf(q \o <<k, 1>>, <<"0", "1", "ff", "100", "8000", "ffff", Hex(Pick(q \o <<k, 2>>, 65536))>>)>>
        seg(k) == IF Pick(q \o <<k>>, 2) = 0 THEN <<>> ELSE <<Word(q \o <<k, 1>>), Word(q \o <<k, 2>>)>>
        pm == Dedup(Many(IF q[1] % 12 = 1 THEN 260 + Pick(q \o <<56>>, 60) ELSE Pick(q \o <<56>>, 9), LAMBDA k : <<IF Pick(q \o <<57, k>>, 2) = 0 THEN Hex(k) ELSE Felt(q \o <<58, k>>), Felt(q \o <<59, k>>)>>))
    IN [pc_init |-> Felt(q \o <<50>>), ap_init |-> Felt(q \o <<51>>), fp_init |-> Felt(q \o <<52>>), pc_final |-> Felt(q \o <<53>>),
        ap_final |-> Felt(q \o <<54>>), rcmin |-> opt(60), rcmax |-> opt(61), rc |-> seg(62), out |-> seg(63),
        pm |-> Many(Len(pm), LAMBDA k : <<pm[k][1], pm[k][2]>>), steps |-> Word(q \o <<55>>)]

(***************************************************************************)
(* Values with lists of tens of thousands of items, given by a rule that   *)
(* the harness knows too: c.n has the lengths of the lists.  Item j        *)
(* (from 0) of list k is 3j + k.                                           *)
(***************************************************************************)
Nth(k, j) == Hex(3 * (j - 1) + k)
LumpF(n, k) == TLCEval([j \in 1..n |-> Nth(k, j)])
LumpH(n, k) == TLCEval([j \in 1..n |-> Be(Nth(k, j), 32)])
LumpProof(c) ==
    [T |-> "10", roots |-> LumpH(c.n[1], 1), fd |-> LumpF(c.n[2], 2), fw |-> "1", croot |-> Be("c0", 32), h1 |-> "11", h2 |-> "12",
     froots |-> LumpH(c.n[3], 3), last |-> "13",
     q |-> << [ps |-> <<LumpH(c.n[4], 4)>>, es |-> LumpF(c.n[5], 5), e |-> LumpF(c.n[6], 6), p |-> <<LumpH(c.n[7], 7)>>] >>
           \o TLCEval([j \in 1..c.n[8] |-> [ps |-> <<>>, es |-> <<>>, e |-> <<Nth(8, j)>>, p |-> <<>>]]),
     o |-> << [cp |-> LumpH(c.n[9], 9), ce |-> "14", co |-> "15", tp |-> TLCEval([j \in 1..c.n[10] |-> <<>>]), te |-> LumpF(c.n[11], 11)] >>
           \o TLCEval([j \in 1..c.n[12] |-> [cp |-> <<>>, ce |-> Nth(12, j), co |-> "16", tp |-> <<>>, te |-> <<>>]]),
     nonce |-> "17"]
LumpPub(c) ==
    [pc_init |-> "1", ap_init |-> "2", fp_init |-> "3", pc_final |-> "4", ap_final |-> "5", rcmin |-> <<"6">>, rcmax |-> <<"7">>,
     rc |-> <<"8", "9">>, out |-> <<>>, pm |-> TLCEval([j \in 1..c.n[1] |-> <<Nth(1, j), Nth(2, j)>>]), steps |-> Hex(c.n[2])]
LumpLen(q) == PickOf(q, <<65535, 65536, 65537, 66000>>)
WireLumpCase(pub, q) ==
    [n |-> IF pub THEN <<LumpLen(q \o <<1>>), PickOf(q \o <<2>>, <<65536, 70001, 16777217>>)>>
           ELSE \* a third of the lists is long
                [j \in 1..12 |-> IF j % 3 = q[1] % 3 THEN LumpLen(q \o <<j>>) ELSE 2 + Pick(q \o <<j, 1>>, 3)],
     cuts |-> <<1, 2, 8, 9, 32, 33, 1000, 1048576 + Pick(q \o <<13>>, 1000)>>]
\* what came of it; the cells of public inputs may be in any order
LumpJudge(pub, c, o) ==
    LET t == TLCEval(IF pub THEN PubT(LumpPub(c), TRUE) ELSE ProofT(LumpProof(c)))
        b == TLCEval(Bytes(t))
        n == BLen(b)
        at == IF pub THEN n - 8 - 64 * c.n[1] ELSE 0
        Cell(x) == {BSub(x, at + 64 * (j - 1), 64) : j \in 1..c.n[1]}
    IN (IF pub /\ BLen(o.enc) = n /\ BSub(o.enc, 0, at) = BSub(b, 0, at) /\ BSub(o.enc, n - 8, 8) = BSub(b, n - 8, 8) /\ Cell(o.enc) = Cell(b)
        THEN {} ELSE IF ~pub /\ o.enc = b THEN {} ELSE {"encoding"})
       \cup (IF o.dec = "same" THEN {} ELSE {"round trip " \o o.dec})
       \cup (IF \A j \in 1..Len(o.cuts) : o.cuts[j] = "err" THEN {} ELSE {"cuts"})

Flat8(q) == BCat(TLCEval([k \in 1..(2 + Pick(q \o <<70>>, 40)) |-> IF Pick(q \o <<71, k>>, 3) < 2 THEN Be(Hex(PickOf(q \o <<72, k>>, <<0, 0, 1, 1, 2, 32, 32, 3>>)), 8) ELSE Hash(q \o <<73, k>>)]))
(***************************************************************************)
(* Changes of a byte string.                                               *)
(***************************************************************************)
RECURSIVE LenPos(_, _)
\* positions of the steering integers
LenPos(toks, at) == IF toks = <<>> THEN <<>>
                    ELSE (IF Head(toks)[2] THEN <<at>> ELSE <<>>) \o LenPos(Tail(toks), at + BLen(Head(toks)[1]))
Apply(b, m) ==
    LET n == BLen(b)
    IN CASE m.o = "cut" -> BSub(b, 0, m.at)
         [] m.o = "put" -> BSub(b, 0, m.at) \o m.b \o BSub(b, m.at + BLen(m.b), n - m.at - BLen(m.b))
         [] m.o = "ins" -> BSub(b, 0, m.at) \o m.b \o BSub(b, m.at, n - m.at)
         [] m.o = "del" -> BSub(b, 0, m.at) \o BSub(b, m.at + m.n, n - m.at - m.n)
         [] m.o = "raw" -> m.b
LenValues(b, p, q) ==
    LET v == NatBe(BSub(b, p, 8))
    IN <<"0", "1", "8", "1f", "20", "21", NMod(NAdd(v, "1"), Pow2(64)), NMod(NAdd(v, "ffffffffffffffff"), Pow2(64)),
         NMod(NAdd(v, "20"), Pow2(64)), Hex(BLen(b)), "7fffffffffffffff", "8000000000000000", "ffffffffffffffff",
         "fffffffffffffff8", "2000000000000000", NatBe(BSub(Hash(q), 0, 8))>>
\* n changes of each kind, and every truncation of a string of at most c bytes
\* (fewer for a long one)
Muts(b, toks, q, n0, c0) ==
    LET len == BLen(b)
        long == len > 6000
        n == IF long THEN Min({n0, 4}) ELSE n0
        c == IF long THEN Min({c0, 24}) ELSE c0
        pos == LenPos(toks, 0)
        cuts == IF len <= c THEN [k \in 1..len |-> [o |-> "cut", at |-> k - 1]]
                ELSE [k \in 1..c |-> [o |-> "cut", at |-> IF k % 4 = 0 THEN Min({len - 1, pos[Pick(q \o <<80, k>>, Len(pos)) + 1] + Pick(q \o <<81, k>>, 9)}) ELSE Pick(q \o <<82, k>>, len)]]
        lens == [k \in 1..(4 * n) |-> LET p == pos[Pick(q \o <<83, k>>, Len(pos)) + 1]
                                      IN [o |-> "put", at |-> p, b |-> Be(PickOf(q \o <<84, k>>, LenValues(b, p, q \o <<85, k>>)), 8)]]
        flip == [k \in 1..(2 * n) |-> [o |-> "put", at |-> Pick(q \o <<86, k>>, len), b |-> BSub(Hash(q \o <<87, k>>), 0, 1)]]
        puts == [k \in 1..n |-> LET a == Pick(q \o <<88, k>>, len)
                                IN [o |-> "put", at |-> a, b |-> BSub(PickOf(q \o <<89, k>>, <<Hash(q \o <<90, k>>), Be("0", 32), Be(NSub(Pow2(256), "1"), 32), Be(WP, 32)>>),
                                                                      0, Min({32, len - a, 1 + Pick(q \o <<91, k>>, 32)}))]]
        inss == [k \in 1..n |-> [o |-> "ins", at |-> IF k < 3 THEN len ELSE Pick(q \o <<92, k>>, len + 1), b |-> BSub(Hash(q \o <<93, k>>), 0, 1 + Pick(q \o <<94, k>>, 32))]]
        dels == [k \in 1..n |-> LET a == Pick(q \o <<95, k>>, len) IN [o |-> "del", at |-> a, n |-> Min({len - a, 1 + Pick(q \o <<96, k>>, 40)})]]
        raws == << [o |-> "raw", b |-> ""] >> \o [k \in 1..(n \div 2) |-> [o |-> "raw", b |-> Flat8(q \o <<97, k>>)]]
    IN TLCEval(cuts) \o TLCEval(lens) \o TLCEval(flip) \o TLCEval(puts) \o TLCEval(inss) \o TLCEval(dels) \o TLCEval(raws)
=============================================================================
