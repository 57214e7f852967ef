------------------------------ MODULE StarkEnv ------------------------------
(***************************************************************************)
(* The environment of the proof system: who asks for a proof of what, with *)
(* which prover strategy, what the verifier is told, and what happens to   *)
(* the proof on the way.  A behaviour is one such history:                 *)
(*                                                                         *)
(*   statement -> options -> strategy -> claim -> transit -> sent          *)
(*                                                                         *)
(* The final state is a scenario for the implementation, with the verdict  *)
(* the protocol's guarantees predict (expect): a true statement proven     *)
(* honestly is accepted, anything else is rejected; "any" where the        *)
(* outcome depends on the challenges.  Adversary choices (deviations,      *)
(* places, edits) are enumerated; the parameters that are merely data are  *)
(* drawn from a hash of SEED.                                              *)
(* Environment variables: FAM (the family), SEED, VARS (variations per     *)
(* family member).  In family "cairo" the proof is one of a Cairo run with *)
(* 2^CT rows, CC columns, CQ queries and blowup CB, and a scenario is only *)
(* what happens to it on the way.                                          *)
(***************************************************************************)
EXTENDS StarkProver, Airs, Json, IOUtils, SequencesExt

ToNat(str) == ToInt(str)                         \* SEED and VARS are given in hexadecimal
SEED == IOEnv.SEED
VARS == ToNat(IOEnv.VARS)
FAM  == IOEnv.FAM

(* pseudo-random choices, determined by SEED and a sequence of numbers *)
Hash(q) == Keccak(Be(SEED, 8) \o BCat(TLCEval([k \in 1..Len(q) |-> Be(Hex(q[k]), 4)])))
Pick(q, n)  == ToInt(NMod(NatBe(BSub(Hash(q), 0, 8)), Hex(n)))
PickOf(q, s) == s[Pick(q, Len(s)) + 1]
PickFe(F, q) == LET x == FRed(F.p, NatBe(BSub(Hash(q), 0, 30))) IN IF x = "0" THEN "1" ELSE x
PickSmall(q) == Hex(1 + Pick(q, 9))

VARIABLES stage, p
vars == <<stage, p>>

AirSeq == <<"fib", "fib2", "quad", "rap", "dummy", "flat", "const", "lag", "skip", "cube",
            "exm", "exm2", "wide", "free", "rap2", "null", "any", "any2", "any3", "any4", "broad", "line">>
AirNo(a) == CHOOSE k \in 1..Len(AirSeq) : AirSeq[k] = a
Std == [blowup |-> 4, nq |-> 2, off |-> "3", grind |-> 1]
OkField(fld, air) == ~(air = "dummy" /\ fld # "stark252")
\* a coset that misses the roots of unity of its size
OkOpts(F, T, o) ==
    /\ Log2(T * o.blowup) <= F.ad
    /\ FPow(F.p, FRed(F.p, o.off), T * o.blowup) # "1"
    /\ FRed(F.p, o.off) # "0"
Blowups == <<2, 4, 8, 16>>
Queries == <<1, 2, 3, 5, 7, 20>>
Offsets == <<"3", "5", "7", "b", "f4243", "100000003", "ffffffffffffffff">>
Grinds  == <<0, 1, 3, 5, 8>>
Lens    == <<1, 2, 4, 8, 16, 32>>
FieldSeq == <<"stark252", "t12289", "stark252", "t193", "t40961", "t257", "stark252">>

(***************************************************************************)
(* Statements and options, by family.                                      *)
(***************************************************************************)
Blank == [fam |-> FAM, dev |-> [none |-> TRUE], corrupt |-> <<>>, edits |-> <<>>, vopts |-> <<>>,
          vpub |-> <<>>, vdesc |-> <<>>, act |-> "honest", rdesc |-> <<>>]
\* free choice of everything (families honest and false)
Wild(air, v) ==
    LET k  == AirNo(air)
        f0 == PickOf(<<k, v, 1>>, FieldSeq)
        fld == IF OkField(f0, air) THEN f0 ELSE "stark252"
        T0 == PickOf(<<k, v, 2>>, Lens)
        T  == Max2(MinT(air), T0)
        o  == [blowup |-> PickOf(<<k, v, 3>>, IF T > 16 THEN <<2, 4>> ELSE Blowups),
               nq |-> PickOf(<<k, v, 4>>, Queries), off |-> PickOf(<<k, v, 5>>, Offsets),
               grind |-> PickOf(<<k, v, 6>>, Grinds)]
    IN [air |-> air, fld |-> fld, T |-> T, opts |-> o, v |-> v, num |-> k * 1000 + v]
\* fixed small setting (adversarial families)
Fixed(air, T, o, v) == [air |-> air, fld |-> "stark252", T |-> T, opts |-> o, v |-> v, num |-> AirNo(air) * 1000 + v]

WithStmt(x) ==
    LET F == Fields[x.fld]
        st == Stmt(x.air, F, x.T, PickFe(F, <<x.num, 10>>), PickFe(F, <<x.num, 11>>))
    IN x @@ [st |-> st] @@ Blank

Statements ==
    CASE FAM = "honest" ->
           {x \in {WithStmt(Wild(a, v)) : a \in AirNames, v \in 1..VARS} :
              OkOpts(Fields[x.fld], x.T, x.opts) /\ WellFormed(x.st.desc, x.T, x.opts.blowup)}
      [] FAM = "false" ->
           {x \in {WithStmt(Wild(a, v)) : a \in AirNames, v \in 1..VARS} :
              x.T <= 16 /\ OkOpts(Fields[x.fld], x.T, x.opts) /\ WellFormed(x.st.desc, x.T, x.opts.blowup)}
           \cup {WithStmt([Fixed("broad", 8, [Std EXCEPT !.blowup = 2], v) EXCEPT !.num = @ + 90000]) : v \in 1..3}
      [] FAM = "debug" ->
           {x \in {WithStmt([Wild(a, v) EXCEPT !.T = Max2(MinT(a), PickOf(<<AirNo(a), v, 40>>, <<2, 4, 8, 8, 16>>))]) : a \in AirNames, v \in 1..VARS} :
              OkOpts(Fields[x.fld], x.T, x.opts) /\ \A k \in 1..Len(x.st.desc.bound) : x.st.desc.bound[k].step < x.T}
           \* long traces, of whose cells some are altered
           \cup {WithStmt([Fixed(x[1], x[2], Std, v) EXCEPT !.num = @ + 80000]) : x \in {<<"fib2", 512>>, <<"quad", 1024>>}, v \in 1..1}
      \* evaluation domains that fill a third of the field: the out-of-domain point is drawn again and again
      [] FAM = "redraw" ->
           {WithStmt([Fixed(a, T, [Std EXCEPT !.blowup = 64 \div T, !.off = PickOf(<<AirNo(a), v, T>>, <<"5", "7">>)], v)
                        EXCEPT !.fld = "t193", !.num = @ + T * 100000]) : a \in {"fib2", "quad", "rap2"}, T \in {8, 16}, v \in 1..VARS}
      [] FAM = "big" ->
           {WithStmt(Fixed(a, T, [Std EXCEPT !.blowup = 2], T)) : a \in {"fib2", "rap", "cube"}, T \in {64, 128}}
           \* more points, a larger blowup, more queries than fit a byte
           \cup {WithStmt(Fixed("quad", x[1], [Std EXCEPT !.blowup = x[2], !.nq = x[3]], x[1] + x[2])) :
                    x \in {<<128, 4, 7>>, <<4, 128, 7>>, <<8, 64, 2>>, <<8, 32, 2>>, <<2, 2, 300>>, <<2, 4, 256>>}}
           \cup {WithStmt(Fixed("broad", 8, [Std EXCEPT !.blowup = 2], 8))}
           \cup {WithStmt(Fixed("line", 65536, [Std EXCEPT !.blowup = 2], 9))}
           \* and longer ones, of which only the verifier's side is replayed
           \cup {y \in {WithStmt([Fixed(x[1], x[3], [Std EXCEPT !.blowup = x[4], !.off = "b"], x[3]) EXCEPT !.fld = x[2]]) :
                    x \in {<<"fib2", "t40961", 1024, 2>>, <<"fib2", "stark252", 2048, 2>>, <<"rap2", "stark252", 512, 4>>, <<"wide", "t40961", 1024, 8>>,
                           <<"skip", "t12289", 2048, 2>>, <<"any", "t40961", 2048, 4>>}} :
                    WellFormed(y.st.desc, y.T, y.opts.blowup)}
      [] FAM = "forge" ->
           {WithStmt(Fixed(a, T, [Std EXCEPT !.grind = 3], v)) : a \in {"fib", "rap2", "lag", "wide", "null"}, T \in {4, 8}, v \in 1..VARS}
      [] FAM = "spot" ->
           {WithStmt(Fixed(a, 8, Std, v)) : a \in {"fib2", "rap2", "lag", "null"}, v \in 1..VARS}
      [] FAM = "edit" ->
           {WithStmt(Fixed(a, 8, Std, v)) : a \in {"fib", "rap"}, v \in 1..VARS}
      \* more queries than there are points: some position is asked for twice
      [] FAM = "crowd" ->
           {WithStmt([Fixed(a, 4, [Std EXCEPT !.blowup = 2, !.nq = 9], v) EXCEPT !.num = @ + 50000]) : a \in {"fib2", "lag"}, v \in 1..VARS}
      \* dozens and hundreds of queries, ten and more layers
      [] FAM = "deep" ->
           {WithStmt([Fixed("lag", 64, [Std EXCEPT !.nq = 70], v) EXCEPT !.num = @ + 70000]) : v \in 1..VARS}
           \cup {WithStmt([Fixed("fib2", 2048, [Std EXCEPT !.blowup = 2], v) EXCEPT !.num = @ + 70000]) : v \in 1..VARS}
           \cup {WithStmt([Fixed("fib2", 4, [Std EXCEPT !.nq = 300], v) EXCEPT !.num = @ + 70000]) : v \in 1..VARS}
      \* fields whose largest evaluation domain is near: what a proof or its options claim leaves it
      [] FAM = "narrow" ->
           {WithStmt([Fixed(x[1], x[3], [Std EXCEPT !.off = x[4]], v) EXCEPT !.fld = x[2], !.num = @ + 60000 + x[3] * 10000]) :
               x \in {<<"fib2", "t193", 8, "5">>, <<"cube", "t257", 16, "3">>, <<"lag", "t12289", 8, "b">>, <<"quad", "t40961", 64, "b">>}, v \in 1..VARS}
      [] FAM = "cairo" ->
           LET n(v) == ToNat(IOEnv[v])
           IN {[air |-> "cairo", fld |-> "stark252", T |-> 2 ^ n("CT"), v |-> 1, num |-> 0,
                opts |-> [blowup |-> n("CB"), nq |-> n("CQ"), off |-> "3", grind |-> 1],
                st |-> [desc |-> [aux |-> 18, cols |-> n("CC"), offs |-> <<0, 1>>], cols |-> <<>>]] @@ Blank}
      [] FAM = "claim" ->
           {WithStmt(Fixed(a, 8, [Std EXCEPT !.grind = 2], v)) :
               a \in {"fib", "fib2", "quad", "rap", "lag", "cube", "exm", "wide", "rap2", "const"}, v \in 1..VARS}
           \cup {WithStmt(Fixed("broad", 8, [Std EXCEPT !.grind = 2], 1))}

(***************************************************************************)
(* Prover strategies.                                                      *)
(***************************************************************************)
D0 == [h |-> "honest", ood |-> "honest", sw |-> -1, cover |-> "none", tree |-> "none", tlay |-> 0,
       nonce |-> "ok", iota |-> "ok", layers |-> -1, nq |-> -1, spot |-> FALSE, pad |-> [w |-> <<>>, k |-> 0, q |-> -1]]
NL(x) == NLayers(x.T)
\* unrelated quotient and/or solved out-of-domain values, an unrelated word from some FRI
\* layer on, and an attempt to cover the seam
Jumps(x) ==
    {[D0 EXCEPT !.h = h, !.ood = od, !.sw = sw, !.cover = cv] :
        h \in {"honest", "low"}, od \in {"honest", "h1", "h2", "trace"}, sw \in -1..NL(x),
        cv \in {"none", "main", "even", "odd", "sym"} \cup (IF x.st.desc.aux > 0 THEN {"aux"} ELSE {})}
Sensible(d) == /\ d.cover \in {"main", "aux", "even", "odd"} => d.sw = 0
               /\ d.cover = "sym" => d.sw >= 1
Trees(x) == {[D0 EXCEPT !.tree = t] : t \in {"main", "comp"} \cup (IF x.st.desc.aux > 0 THEN {"aux"} ELSE {})}
            \cup {[D0 EXCEPT !.tree = t, !.tlay = k] : t \in {"fripoint", "frisym"}, k \in 0..(NL(x) - 1)}
\* (the openings of the zero trace are the same everywhere)
Misc(x)  == {[D0 EXCEPT !.nonce = "bad"]} \cup (IF x.air = "null" THEN {} ELSE {[D0 EXCEPT !.iota = "own"]})
            \cup {[D0 EXCEPT !.nq = n] : n \in 0..(x.opts.nq - 1)}
            \cup {[D0 EXCEPT !.layers = n] : n \in (0..(NL(x) + 1)) \ {NL(x)}}
\* openings that leave out the part that would show the lie, or bring a value of their own for
\* it to be compared with: a verifier that compares what is there finds nothing wrong
Pad(w, k, q) == [w |-> w, k |-> k, q |-> q]
FriLists == {<<"fp">>, <<"fps">>, <<"fes">>, <<"fp", "fps", "fes">>}
Pads(x) ==
    {[D0 EXCEPT !.sw = k + 1, !.pad = Pad(w, k, -1)] : w \in FriLists, k \in 0..(NL(x) - 1)}
    \cup {[D0 EXCEPT !.sw = NL(x), !.pad = Pad(<<"more">>, 0, -1)]}
    \cup {[D0 EXCEPT !.tree = "main", !.pad = Pad(w, 0, -1)] : w \in {<<"tp">>, <<"tp", "roots">>}}
    \cup (IF x.st.desc.aux > 0 THEN {[D0 EXCEPT !.tree = "aux", !.pad = Pad(<<"tp">>, 1, -1)]} ELSE {})
Devs(x) == {d \in Jumps(x) : Sensible(d)} \cup Trees(x) \cup Misc(x) \cup Pads(x)
Spots(x) ==
    {[D0 EXCEPT !.spot = [what |-> wa[1], at |-> wa[2], lay |-> 0, sym |-> FALSE, q |-> q]] :
        wa \in {"leaf", "word"} \X {"main", "even"} \cup {<<"word", "odd">>} 
              \cup (IF x.st.desc.aux > 0 THEN {"leaf", "word"} \X {"aux"} ELSE {}),
        q \in 0..(x.opts.nq - 1)}
    \cup {[D0 EXCEPT !.spot = [what |-> "leaf", at |-> "fri", lay |-> k, sym |-> y, q |-> q]] :
            k \in 0..(NL(x) - 1), y \in BOOLEAN, q \in 0..(x.opts.nq - 1)}
    \cup {[D0 EXCEPT !.spot = [what |-> "word", at |-> "fri", lay |-> k, sym |-> TRUE, q |-> q]] :
            k \in 0..(NL(x) - 1), q \in 0..(x.opts.nq - 1)}
    \* and the query that would show it leaves it out
    \cup {[D0 EXCEPT !.spot = [what |-> "leaf", at |-> "fri", lay |-> k, sym |-> y, q |-> q], !.pad = Pad(w, k, q)] :
            k \in 0..(NL(x) - 1), y \in BOOLEAN, q \in 0..(x.opts.nq - 1), w \in FriLists}
    \cup {[D0 EXCEPT !.spot = [what |-> "word", at |-> "fri", lay |-> k, sym |-> TRUE, q |-> q], !.pad = Pad(w, k, q)] :
            k \in 0..(NL(x) - 1), q \in 0..(x.opts.nq - 1), w \in FriLists}
    \cup {[D0 EXCEPT !.spot = [what |-> "word", at |-> "fri", lay |-> NL(x) - 1, sym |-> TRUE, q |-> q], !.pad = Pad(<<"more">>, 0, q)] :
            q \in 0..(x.opts.nq - 1)}
    \cup {[D0 EXCEPT !.spot = [what |-> "leaf", at |-> "main", lay |-> 0, sym |-> FALSE, q |-> q], !.pad = Pad(<<"tp">>, 0, q)] : q \in 0..(x.opts.nq - 1)}
    \cup (IF x.st.desc.aux = 0 THEN {}
          ELSE {[D0 EXCEPT !.spot = [what |-> "leaf", at |-> "aux", lay |-> 0, sym |-> FALSE, q |-> q], !.pad = Pad(<<"tp">>, 1, q)] : q \in 0..(x.opts.nq - 1)})
\* a late query, a late layer
DeepQ(x) == {31, 32, x.opts.nq - 6, x.opts.nq - 1}
DeepSpots(x) ==
    LET sp(w, a, k, y, q) == [D0 EXCEPT !.spot = [what |-> w, at |-> a, lay |-> k, sym |-> y, q |-> q]]
    IN IF x.T > 64 THEN {sp("leaf", "fri", k, y, q) : k \in (NL(x) - 4)..(NL(x) - 1), y \in BOOLEAN, q \in {x.opts.nq - 1}}
                        \cup {sp("word", "fri", k, TRUE, q) : k \in (NL(x) - 4)..(NL(x) - 1), q \in {0}}
       ELSE {sp(w, a, 0, FALSE, q) : w \in {"leaf", "word"}, a \in {"main", "even"}, q \in DeepQ(x)}
            \cup {sp(w, "fri", 0, TRUE, q) : w \in {"leaf", "word"}, q \in DeepQ(x)}
            \cup {sp("leaf", "fri", 0, FALSE, q) : q \in DeepQ(x)}
DeepEdits(x) ==
    {[e |-> "val", w |-> w, q |-> q, lay |-> 1, i |-> 0, d |-> 1] : w \in {"fe", "fes", "ce", "co", "te"}, q \in {63, 64, 127, 128, 255, 256, 299}}
    \cup {[e |-> "path", w |-> w, q |-> q, lay |-> 0, i |-> 1] : w \in {"comp", "trace", "fri", "frisym"}, q \in {63, 64, 127, 128, 255, 256, 299}}
\* one cell of the main trace, another value
Corrupt(x, k) ==
    LET nm == x.st.desc.cols - x.st.desc.aux
        \* of many columns, often a late one
        c  == IF nm > 64 /\ k # 2 THEN 66 + Pick(<<x.num, 20, k>>, nm - 66) ELSE Pick(<<x.num, 20, k>>, nm)
        rw == PickOf(<<x.num, 21, k>>, <<0, x.T - 1, Pick(<<x.num, 22, k>>, x.T), Pick(<<x.num, 23, k>>, x.T)>>)
    IN [col |-> c, row |-> rw, d |-> PickSmall(<<x.num, 24, k>>)]
Apply(F, cols, c) == [cols EXCEPT ![c.col + 1][c.row + 1] = FAdd(F.p, @, c.d)]
\* what may be wrong with a full trace: nothing, any one cell, and some pairs of cells (in
\* particular changes that cancel out)
Cases(x) ==
    LET cell(c, rw, d) == [col |-> c, row |-> rw, d |-> d]
        cs == 0..(x.st.desc.cols - 1)
        rs == IF x.T <= 64 THEN 0..(x.T - 1) ELSE {0, 1, 2, 255, 256, 257, x.T - 2, x.T - 1, Pick(<<x.num, 52>>, x.T)}
        one == {<<cell(c, rw, "1")>> : c \in cs, rw \in rs}
        any(q) == cell(Pick(q \o <<1>>, x.st.desc.cols), Pick(q \o <<2>>, x.T), PickSmall(q \o <<3>>))
        two == {<<any(<<x.num, 50, k>>), any(<<x.num, 51, k>>)>> : k \in 1..8}
    IN SetToSeq({<<>>} \cup one \cup two)
Mid(x) == [col |-> 0, row |-> Max2(x.T \div 2, 1), d |-> "5"]
\* whether the (possibly altered) trace satisfies the statement; randomized columns are
\* computed for sample challenges, which decides up to negligible probability in a large field
\* and is not claimed in a small one
Truth(x, cols) ==
    LET F == Fields[x.fld]
        R == [fld |-> F, air |-> DataAir(x.st.desc), cols |-> cols]
        \* challenges for which the auxiliary columns exist
        chs == {c \in {TLCEval([k \in 1..x.st.desc.nch |-> PickFe(F, <<j, k>>)]) : j \in 77..90} : ~AuxUndef(R, c)}
        ch == TLCEval(CHOOSE c \in chs : TRUE)
    IN Satisfies(F, x.st.desc, cols \o AuxCols(R, ch), ch)

(***************************************************************************)
(* Changed claims and transit edits.                                       *)
(***************************************************************************)
\* (of many, some)
Few(n) == IF n <= 8 THEN 1..n ELSE {1, 34, 65, n}
DescEdits(d) ==
    {[d EXCEPT !.bound[k].val = FAdd(Fields["stark252"].p, @, "1")] : k \in Few(Len(d.bound))}
    \cup {[d EXCEPT !.bound[k].step = @ + 1] : k \in Few(Len(d.bound))}
    \cup {[d EXCEPT !.bound[k].step = 8] : k \in Few(Len(d.bound))}
    \cup {[d EXCEPT !.bound[k].step = @ + 8] : k \in Few(Len(d.bound))}
    \cup {[d EXCEPT !.bound[k].col = (@ + 1) % d.cols] : k \in IF d.cols > 1 THEN Few(Len(d.bound)) ELSE {}}
    \cup {[d EXCEPT !.bound = SubSeq(@, 1, Len(@) - 1)] : k \in IF d.bound = <<>> THEN {} ELSE {1}}
    \cup {[d EXCEPT !.bound = Append(@, Bd(0, 3, "7"))]}
    \cup {[d EXCEPT !.cons[k].terms[j].c = @ + 1] : k \in Few(Len(d.cons)), j \in 1..2}
    \cup {[d EXCEPT !.cons[k].ex = @ + 1, !.nex = Nex(d2.cons)] : k \in Few(Len(d.cons)), d2 \in {d}}
    \cup {[d EXCEPT !.cons = SubSeq(@, 1, Len(@) - 1)] : k \in IF Len(d.cons) < 2 THEN {} ELSE {1}}
    \cup {[d EXCEPT !.cons = <<@[2], @[1]>> \o SubSeq(@, 3, Len(@))] : k \in IF Len(d.cons) < 2 THEN {} ELSE {1}}
    \cup {[d EXCEPT !.cons[k].deg = @ + 1, !.dbound = @ + 1] : k \in Few(Len(d.cons))}
FixNex(d) == [d EXCEPT !.nex = Nex(d.cons)]
OptEdits(o) ==
    {[o EXCEPT !.grind = g] : g \in {0, 1, 4, 12, 63, 64, 128, 200, 255}}
    \cup {[o EXCEPT !.nq = n] : n \in {1, 3}}
    \cup {[o EXCEPT !.off = n] : n \in {"5", "7"}}
    \cup {[o EXCEPT !.blowup = n] : n \in {2, 8}}
PubEdits(x) ==
    CASE x.air \in {"fib", "fib2"} -> {[x.st.pub EXCEPT !.a0 = FAdd(Fields[x.fld].p, @, "1")],
                                       [x.st.pub EXCEPT !.a1 = FAdd(Fields[x.fld].p, @, "1")],
                                       [a0 |-> x.st.pub.a1, a1 |-> x.st.pub.a0]}
      [] x.air = "quad" -> {[a0 |-> FAdd(Fields[x.fld].p, x.st.pub.a0, "1")]}
      [] x.air = "rap"  -> {[x.st.pub EXCEPT !.steps = @ - 1]}
      [] OTHER -> {}
\* the arithmetization the changed public input stands for
PubDesc(x, pub) ==
    CASE x.air \in {"fib"} -> [x.st.desc EXCEPT !.bound = <<Bd(0, 0, pub.a0), Bd(0, 1, pub.a1)>>]
      [] x.air \in {"fib2"} -> [x.st.desc EXCEPT !.bound = <<Bd(0, 0, pub.a0), Bd(1, 0, pub.a1)>>]
      [] x.air = "quad" -> [x.st.desc EXCEPT !.bound = <<Bd(0, 0, pub.a0)>>]
      [] x.air = "rap"  -> RapDesc(x.T, pub.steps, <<>>).desc

\* options no prover uses: whatever they are, the verifier gives an answer
OddOpts(o) ==
    {[o EXCEPT !.blowup = n] : n \in {0, 1, 3, 5, 6, 12, 20, 64, 128, 255}}
    \cup {[o EXCEPT !.off = "0"]}
    \cup {[o EXCEPT !.nq = n] : n \in {0, 1000, 1073741824}}
    \cup {[o EXCEPT !.grind = n] : n \in {63, 64, 65, 255}}

NT(x) == IF x.st.desc.aux > 0 THEN 2 ELSE 1
Kd(x) == Log2(x.T * x.opts.blowup)
Qs(x) == 0..(x.opts.nq - 1)
Vals(x) ==
    {[e |-> "val", w |-> w, d |-> d] : w \in {"h1", "h2", "last"}, d \in {1, -1}}
    \cup {[e |-> "val", w |-> "ood", lay |-> r, i |-> c, d |-> 1] : r \in 0..(Len(x.st.desc.offs) - 1), c \in 0..(x.st.desc.cols - 1)}
    \cup {[e |-> "val", w |-> w, q |-> q, lay |-> k, d |-> 1] : w \in {"fe", "fes"}, q \in Qs(x), k \in 0..(NL(x) - 1)}
    \cup {[e |-> "val", w |-> w, q |-> q, d |-> 1] : w \in {"ce", "co"}, q \in Qs(x)}
    \cup {[e |-> "val", w |-> "te", q |-> q, i |-> c, d |-> 1] : q \in Qs(x), c \in 0..(x.st.desc.cols - 1)}
Roots(x) ==
    {[e |-> "root", w |-> "trace", lay |-> k, i |-> b] : k \in 0..(NT(x) - 1), b \in {0, 31}}
    \cup {[e |-> "root", w |-> "comp", i |-> b] : b \in {0, 31}}
    \cup {[e |-> "root", w |-> "fri", lay |-> k, i |-> b] : k \in 0..(NL(x) - 1), b \in {0, 31}}
PathAt(x, n(_)) ==
    UNION {{[w |-> "comp", q |-> q, lay |-> 0, i |-> i] : i \in n(0)} : q \in Qs(x)}
    \cup UNION {{[w |-> "trace", q |-> q, lay |-> k, i |-> i] : i \in n(0), k \in 0..(NT(x) - 1)} : q \in Qs(x)}
    \cup UNION {{[w |-> w, q |-> q, lay |-> k, i |-> i] : w \in {"fri", "frisym"}, i \in n(k)} : q \in Qs(x), k \in 0..(NL(x) - 1)}
Paths(x) == LET nodes(k) == 0..(Kd(x) - k - 1) IN {[e |-> "path"] @@ y : y \in PathAt(x, nodes)}
PathLens(x) == LET one(k) == {0}
               IN {[e |-> "pathlen", op |-> o] @@ y : o \in {"pop", "clear", "dup"}, y \in PathAt(x, one)}
Shapes(x) ==
    {[e |-> "oodshape", w |-> w] : w \in {"droprow", "addrow", "width0", "widthbig", "widthplus", "empty"}
                                          \cup (IF x.st.desc.cols > 1 THEN {"width1"} ELSE {})}
    \cup {[e |-> "vec", w |-> w, op |-> o, q |-> 0] : w \in {"roots", "froots", "queries", "openings"}, o \in {"pop", "clear", "dup"}}
    \cup {[e |-> "vec", w |-> w, op |-> o, q |-> q] : w \in {"tp", "te", "fp", "fps", "fe", "fes"}, o \in {"pop", "clear", "dup"}, q \in Qs(x)}
    \cup {[e |-> "T", d |-> t] : t \in {"0", "1", "3", "4", "7", "9", "10", "20", "100", "400000", "40000000", "100000000",
                                        "8000000000000000", "4000000000000000", "ffffffffffffffff"}}
\* other trace lengths, up to and past the largest domain of the field
Domains(x) == {[e |-> "T", d |-> Pow2(d)] : d \in {d \in 0..Fields[x.fld].ad + 2 : 2 ^ d # x.T}}
Swaps(x) == {[e |-> "vec", w |-> w, op |-> "swap", q |-> 0] : w \in {"roots", "froots", "queries", "openings", "tp", "te", "fp", "fe"}}
Nonces(x) == {[e |-> "nonce", d |-> n] : n \in {1, 2, 3, 64, 255, 256, 65536}}
All(x, mk(_)) == [q \in 1..x.opts.nq |-> mk(q - 1)]
V(w, op, q) == [e |-> "vec", w |-> w, op |-> op, q |-> q]
\* several parts shortened together, so that they agree with each other
Together(x) ==
    LET each(w, op) == LET mk(q) == V(w, op, q) IN All(x, mk)
    IN {<<V("queries", op, 0), V("openings", op, 0)>> : op \in {"pop", "clear", "dup"}}
       \cup {<<V("froots", op, 0)>> \o each("fp", op) \o each("fps", op) \o each("fe", op) \o each("fes", op) : op \in {"pop", "clear", "dup"}}
       \cup {<<V("froots", op, 0)>> \o each("fp", op) \o each("fps", op) \o each("fes", op) : op \in {"pop", "clear"}}
       \cup {<<V("roots", op, 0)>> \o each("tp", op) : op \in {"pop", "clear", "dup"}}
       \cup {each(w, op) : w \in {"tp", "te", "fp", "fps", "fe", "fes"}, op \in {"pop", "clear"}}
       \cup {each("fp", op) \o each("fps", op) : op \in {"pop", "clear"}}
       \cup {<<[e |-> "T", d |-> t], V("froots", op, 0)>> \o each("fp", op) \o each("fps", op) \o each("fe", op) \o each("fes", op) :
               <<t, op>> \in {<<"4", "pop">>, <<"10", "dup">>, <<"1", "clear">>}}
       \cup {<<V("queries", "swap", 0), V("openings", "swap", 0)>>}
\* another trace length 2^d, with every part resized to what it calls for (the random
\* air's exemptions grow with the trace, so its description would too)
Scales(x) == {<<[e |-> "scale", d |-> d]>> : d \in IF x.air = "rap" THEN {4, 10} ELSE {4, 10, 20, 30, 34, 40, 50, 60, 61, 62, 63}}

(***************************************************************************)
(* The history.                                                            *)
(***************************************************************************)
Init == stage = "statement" /\ p = [fam |-> FAM]
PickStatement == /\ stage = "statement"
                 /\ \E x \in Statements : p' = x
                 /\ stage' = "strategy"
Strategy ==
    /\ stage = "strategy"
    /\ stage' = "claim"
    /\ LET tru == [p EXCEPT !.act = "honest"] @@ [cols |-> p.st.cols, truth |-> TRUE]
           F == Fields[p.fld]
           fcols(c) == Apply(F, p.st.cols, c)
       IN CASE FAM \in {"honest", "redraw", "big", "edit", "crowd", "narrow", "claim", "cairo"} -> p' = tru
            [] FAM = "debug" -> p' = [tru EXCEPT !.act = "validate"] @@ [cases |-> Cases(p)]
            [] FAM = "false" ->
                 \E k \in 1..3 :
                   LET c1 == fcols(Corrupt(p, k))
                       c2 == IF k = 3 THEN Apply(F, c1, Corrupt(p, 4)) ELSE c1
                   IN p' = p @@ [cols |-> c2, truth |-> Truth(p, c2)]
            [] FAM = "forge" ->
                 \E d \in Devs(p), t \in BOOLEAN :
                   LET c == IF t THEN p.st.cols ELSE fcols(Mid(p))
                       plain == d.sw = -1 /\ d.h = "honest" /\ d.tree = "none" /\ d.nonce = "ok" /\ d.iota = "ok"
                                /\ d.layers = -1 /\ d.nq = -1
                   IN p' = [p EXCEPT !.act = "forge", !.dev = d]
                            @@ [cols |-> c, truth |-> t /\ plain,
                                \* with no low-degree word to fall back on, folding the word honestly ends in
                                \* one of blowup values, and each query hits the claimed one by chance
                                luck |-> d.sw = -1 /\ d.ood # "honest"]
            [] FAM = "deep" ->
                 IF p.T = 4 THEN p' = tru
                 ELSE \E d \in DeepSpots(p) : p' = [p EXCEPT !.act = "forge", !.dev = d] @@ [cols |-> p.st.cols, truth |-> FALSE]
            [] FAM = "spot" ->
                 \E d \in Spots(p) : p' = [p EXCEPT !.act = "forge", !.dev = d] @@ [cols |-> p.st.cols, truth |-> FALSE]
Claim ==
    /\ stage = "claim"
    /\ stage' = "transit"
    /\ IF FAM # "claim" THEN p' = p @@ [expect |->
                                           IF FAM = "debug" THEN "any" ELSE
                                           IF p.truth /\ FAM # "forge" THEN "accept"
                                           ELSE IF FAM = "forge" /\ p.luck THEN "any"
                                           ELSE IF p.truth THEN "accept"
                                           ELSE IF p.fld = "stark252" THEN "reject" ELSE "any"]
       ELSE \/ /\ p.air \notin {"fib", "fib2", "quad", "rap"}
               /\ \E d \in DescEdits(p.st.desc) :
                    \* a changed statement is refused unless the trace happens to satisfy it too
                    p' = [p EXCEPT !.vdesc = FixNex(d)] @@ [expect |-> "any"]
            \/ \E o \in OptEdits(p.opts) :
                    p' = [p EXCEPT !.vopts = o]
                         @@ [expect |-> IF o.grind <= p.opts.grind /\ [o EXCEPT !.grind = p.opts.grind] = p.opts THEN "accept"
                                        \* (a constant trace looks the same on any coset)
                                        ELSE IF o.grind = p.opts.grind /\ p.air # "const" THEN "reject" ELSE "any"]
            \/ \E pb \in PubEdits(p) :
                    p' = [p EXCEPT !.vpub = pb, !.vdesc = PubDesc(p, pb)]
                         @@ [expect |-> IF p.air = "rap" THEN "any" ELSE "reject"]
Transit ==
    /\ stage = "transit"
    /\ stage' = "sent"
    /\ IF FAM \notin {"edit", "crowd", "narrow", "cairo"} /\ ~(FAM = "deep" /\ p.T = 4) THEN p' = p
       ELSE LET put(es, x) == p' = [p EXCEPT !.edits = es, !.expect = x]
            IN IF FAM = "deep" THEN \E e \in DeepEdits(p) : put(<<e>>, "reject")
               ELSE IF FAM = "crowd" THEN \E e \in Vals(p) \cup Paths(p) : put(<<e>>, "reject")
               \* (small fields: what is refused with overwhelming probability elsewhere may pass here)
               ELSE IF FAM = "narrow" THEN
               \/ \E e \in Vals(p) \cup Domains(p) : put(<<e>>, IF e.e = "T" THEN "reject" ELSE "any")
               \/ \E d \in 0..Fields[p.fld].ad + 2 :
                     2 ^ d # p.T /\ put(<<[e |-> "scale", d |-> d]>>, IF 2 ^ d * p.opts.blowup > 2 ^ Fields[p.fld].ad THEN "reject" ELSE "any")
               \/ \E o \in OddOpts(p.opts) : p' = [p EXCEPT !.vopts = o, !.expect = IF IsPow2(o.blowup) /\ o.blowup * p.T > 2 ^ Fields[p.fld].ad THEN "reject" ELSE "any"]
               \/ put(<<>>, "accept")
               ELSE
               \/ \E e \in Vals(p) \cup Roots(p) \cup Paths(p) \cup PathLens(p) \cup Shapes(p) : put(<<e>>, "reject")
               \/ \E e \in Swaps(p) \cup Nonces(p) : put(<<e>>, "any")
               \/ \E es \in Together(p) : put(es, IF es[1].e = "vec" /\ es[1].op = "swap" THEN "any" ELSE "reject")
               \/ \E es \in Scales(p) : put(es, "reject")
               \/ \E o \in OddOpts(p.opts) : p' = [p EXCEPT !.vopts = o, !.expect = IF IsPow2(o.blowup) THEN "reject" ELSE "any"]
               \/ put(<<>>, "accept")

IsNone(x) == x = <<>> \/ x = [none |-> TRUE]
Small(x) == x.st.desc.cols * x.T * x.opts.blowup <= 400
Scenario(x) ==
    [id |-> x.num, field |-> x.fld,
     air |-> IF x.act = "forge" THEN "data" ELSE x.st.air,
     desc |-> x.st.desc, pub |-> x.st.pub, opts |-> x.opts, act |-> x.act,
     trace |-> [kind |-> "cols", T |-> x.T, cols |-> x.cols],
     edits |-> x.edits, record |-> TRUE, seed |-> x.num,
     check |-> IF FAM \in {"honest", "redraw", "big"} /\ (Small(x) \/ FAM = "redraw" \/ (FAM = "big" /\ x.T * x.opts.blowup <= 4096) \/ (FAM = "honest" /\ x.v = 1)) THEN "full" ELSE "none",
     dev |-> IF IsNone(x.dev) THEN D0 ELSE x.dev,
     meta |-> [fam |-> FAM, air |-> x.air, expect |-> x.expect,
               samelog |-> x.act = "honest" /\ x.edits = <<>> /\ IsNone(x.vopts) /\ IsNone(x.vdesc) /\ IsNone(x.vpub)]]
    @@ (IF FAM = "debug" THEN [word |-> BSub(Hash(<<x.num, 60>>), 0, 8 + (x.num % 20)), cases |-> x.cases] ELSE <<>>)
    @@ (IF IsNone(x.vopts) THEN <<>> ELSE [vopts |-> x.vopts])
    @@ (IF IsNone(x.vpub) THEN <<>> ELSE [vpub |-> x.vpub])
    @@ (IF IsNone(x.vdesc) THEN <<>> ELSE [vdesc |-> x.vdesc])
Send == /\ stage = "sent"
        /\ PrintT("@@" \o ToJson(IF FAM = "cairo" THEN [edits |-> p.edits, opts |-> p.vopts, expect |-> p.expect] ELSE Scenario(p)))
        /\ stage' = "over"
        /\ p' = [fam |-> FAM]
Next == PickStatement \/ Strategy \/ Claim \/ Transit \/ Send
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Checked on every state: the zoo's traces satisfy their statements, what *)
(* is called false is false, and acceptance is promised only for histories *)
(* without a lie.                                                          *)
(***************************************************************************)
ZooOk == stage = "strategy" /\ FAM # "cairo" => Truth(p, p.st.cols)
NoFreeLunch == stage = "sent" /\ p.expect = "accept" =>
                 /\ p.truth /\ p.edits = <<>>
                 /\ IsNone(p.vdesc) /\ IsNone(p.vpub)
=============================================================================
