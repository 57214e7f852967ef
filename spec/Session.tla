------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One party's side of an interactive proof, as a session over a           *)
(* transcript: bytes are absorbed, field elements, indices and             *)
(* out-of-domain points are drawn, polynomials are evaluated and           *)
(* interpolated on cosets, a polynomial is committed to and folded layer   *)
(* by layer (FRI), and the layers are opened at drawn positions - in any   *)
(* order, with polynomials of any length, any number of layers, and any    *)
(* coset.  The generator walks the machine, the checker follows the        *)
(* recorded sessions one operation at a time.                              *)
(*                                                                         *)
(* A proof is one particular session; here the operations are on their own *)
(* (a polynomial need not come from a trace, nor fit the layers).          *)
(***************************************************************************)
EXTENDS Airs, Env

Many(n, el(_)) == TLCEval([k \in 1..n |-> el(k)])
\* [field, largest domain to use]
FieldSeq == <<"stark252", "t12289", "t193", "t40961", "t257", "stark252">>

(***************************************************************************)
(* The operations.  s : [t, layers, off, n]  layers: what was committed to *)
(* last, as [off, ev, lv] (offset, values, hashes), over n points.         *)
(***************************************************************************)
SNew == [t |-> TrNew, layers |-> <<>>, n |-> 0]
\* p(x) = e(x^2) + x o(x^2) becomes e + b o
FoldCoeffs(F, c, b) ==
    Many((Len(c) + 1) \div 2, LAMBDA k : FAdd(F.p, c[2 * k - 1], IF 2 * k <= Len(c) THEN FMul(F.p, b, c[2 * k]) ELSE "0"))
Values(F, c, off, n) == PEvals(F.p, c, off, Root(F, n), n)
Layer(F, c, off, n) == LET ev == TLCEval(Values(F, c, off, n))
                       IN [off |-> off, ev |-> ev, lv |-> Levels(Many(n, LAMBDA k : LeafOf(F, <<ev[k]>>)))]
RECURSIVE Commit(_, _, _, _, _, _, _)
\* k layers are left to make; after the last one the polynomial is folded once more
Commit(F, t, c, off, n, k, acc) ==
    LET y == Layer(F, c, off, n)
        d == TrCh(TrAbs(t, TreeRoot(y.lv)))
        z == ChFe(F, d.c)
        f == FoldCoeffs(F, c, z)
        ls == Append(acc, y @@ [zeta |-> z])
    IN IF k > 1 THEN Commit(F, d.t, f, FMul(F.p, off, off), n \div 2, k - 1, ls)
       ELSE LET last == IF f = <<>> THEN "0" ELSE f[1]
            IN [t |-> TrAbs(d.t, Be(last, F.nb)), layers |-> ls, last |-> last, rest |-> SubSeq(f, 2, Len(f))]
RECURSIVE Outside(_, _, _)
Outside(F, t, pts) == LET c == TrCh(t)
                          z == ChFe(F, c.c)
                      IN IF z \in pts THEN Outside(F, c.t, pts) ELSE [z |-> z, t |-> c.t]
\* without leading zeros
RECURSIVE Trim(_)
Trim(c) == IF c = <<>> \/ c[Len(c)] # "0" THEN c ELSE Trim(SubSeq(c, 1, Len(c) - 1))
SetOf(q) == {q[k] : k \in 1..Len(q)}
Coset(F, off, n) == Many(n, LAMBDA k : FMul(F.p, off, FPow(F.p, Root(F, n), k - 1)))
Opening(y, i) == LET m == Len(y.ev)
                     a == i % m
                     b == (i + m \div 2) % m
                 IN [e |-> y.ev[a + 1], es |-> y.ev[b + 1], p |-> TreePath(y.lv, a), ps |-> TreePath(y.lv, b)]
\* -> [s, r]: the session after the operation, and what the operation gives
Do(F, s, o) ==
    CASE o.op = "absorb" -> [s |-> [s EXCEPT !.t = TrAbs(@, o.b)], r |-> <<>>]
      [] o.op = "felts" -> LET d == DrawFes(F, s.t, o.n) IN [s |-> [s EXCEPT !.t = d.t], r |-> d.q]
      [] o.op = "index" -> LET c == TrCh(s.t) IN [s |-> [s EXCEPT !.t = c.t], r |-> NatBe(BSub(c.c, 0, 8))]
      [] o.op = "z" -> LET d == Outside(F, s.t, SetOf(o.lde) \cup SetOf(o.tr)) IN [s |-> [s EXCEPT !.t = d.t], r |-> d.z]
      [] o.op = "eval" -> [s |-> s, r |-> Values(F, o.poly, o.off, o.n * o.blowup)]
      [] o.op = "interp" -> [s |-> s, r |-> Trim(PInterp(F.p, o.vals, o.off, Root(F, Len(o.vals))))]
      [] o.op = "commit" ->
           LET c == TLCEval(Commit(F, s.t, o.poly, o.off, o.n, o.layers, <<>>))
           IN [s |-> [t |-> c.t, layers |-> c.layers, n |-> o.n],
               r |-> [last |-> c.last,
                      layers |-> Many(Len(c.layers), LAMBDA k : [off |-> c.layers[k].off, n |-> Len(c.layers[k].ev),
                                                                 root |-> TreeRoot(c.layers[k].lv), ev |-> c.layers[k].ev])]]
      [] o.op = "query" ->
           IF s.layers = <<>> THEN [s |-> s, r |-> [iotas |-> <<>>, q |-> <<>>]]
           ELSE LET d == DrawIdx(s.t, s.n, o.nq)
                IN [s |-> [s EXCEPT !.t = d.t],
                    r |-> [iotas |-> d.q, q |-> Many(o.nq, LAMBDA j : Many(Len(s.layers), LAMBDA k : Opening(s.layers[k], d.q[j])))]]

(***************************************************************************)
(* Generation.                                                             *)
(***************************************************************************)
VARIABLES st, i, s, j, out
vars == <<st, i, s, j, out>>
Init == /\ st = "start" /\ s = SNew /\ j = 0 /\ out = <<>>
        /\ i \in IF MODE = "chk" THEN 1..Len(Recs) ELSE 1..SIZE
Rec == Recs[i]
Fi == PickOf(<<i, 1>>, FieldSeq)
Felt(q) == LET F == Fields[Fi]
           IN IF Pick(q, 4) = 0 THEN PickOf(q \o <<1>>, <<"0", "1", "2", "c0">>) ELSE FRed(F.p, NatBe(BSub(Hash(q \o <<2>>), 0, 30)))
NonZero(q) == LET x == Felt(q) IN IF x = "0" THEN "3" ELSE x
\* polynomials: any length, and some that are zero, or zero from some power on
Poly(q, n) == LET c == Many(n, LAMBDA k : Felt(q \o <<k>>))
              IN CASE Pick(q \o <<1, 1>>, 8) = 0 -> Many(n, LAMBDA k : "0")
                   [] Pick(q \o <<1, 1>>, 8) = 1 -> Many(n, LAMBDA k : IF k > n \div 2 THEN "0" ELSE c[k])
                   [] Pick(q \o <<1, 1>>, 8) = 2 -> Many(n, LAMBDA k : IF k % 2 = 0 THEN "0" ELSE c[k])
                   [] OTHER -> c
\* a session in sixteen has a large domain
TopLog == Min({Fields[Fi].ad, IF i % 16 = 0 THEN 10 ELSE 6})
Log(q) == IF i % 16 = 0 THEN TopLog - Pick(q, 2) ELSE Pick(q, TopLog + 1)
Kinds == <<"absorb", "felts", "index", "z", "eval", "interp", "commit", "commit", "query", "query">>
Op(q) ==
    LET F == Fields[Fi]
        k == PickOf(q \o <<1>>, Kinds)
        lg == Log(q \o <<2>>)
        n == 2 ^ lg
    IN CASE k = "absorb" -> [op |-> k, b |-> BSub(Hash(q \o <<3>>), 0, PickOf(q \o <<4>>, <<0, 1, 8, 31, 32>>))]
         [] k = "felts" -> [op |-> k, n |-> PickOf(q \o <<3>>, <<1, 1, 0, 2, 3, 7, 40>>)]
         [] k = "index" -> [op |-> k]
         [] k = "z" -> LET m == Pick(q \o <<3>>, Min({F.ad, 7}))
                       IN [op |-> k, lde |-> Coset(F, NonZero(q \o <<4>>), 2 ^ m), tr |-> Coset(F, "1", 2 ^ Pick(q \o <<5>>, m + 1))]
         [] k = "eval" -> LET b == 2 ^ Pick(q \o <<3>>, lg + 1)
                          IN [op |-> k, blowup |-> b, n |-> n \div b, off |-> NonZero(q \o <<4>>),
                              \* (a polynomial longer than the trace still has values on the domain)
                              poly |-> Poly(q \o <<5>>, Pick(q \o <<6>>, 1 + (n \div b) * (IF lg + 2 <= F.ad THEN 4 ELSE 1)))]
         [] k = "interp" -> [op |-> k, off |-> NonZero(q \o <<3>>), vals |-> Poly(q \o <<4>>, n)]
         [] k = "commit" -> LET l == 1 + lg
                                m == IF l > F.ad THEN lg ELSE l
                            IN [op |-> k, n |-> 2 ^ m, layers |-> 1 + Pick(q \o <<3>>, Max2(m, 1)), off |-> NonZero(q \o <<4>>),
                                poly |-> Poly(q \o <<5>>, Pick(q \o <<6>>, 1 + 2 ^ m))]
         [] k = "query" -> [op |-> k, nq |-> PickOf(q \o <<3>>, <<1, 2, 3, 10, 24, 0>>)]
Walk == /\ MODE = "gen" /\ st = "start" /\ UNCHANGED i
        /\ IF j >= 3 + Pick(<<i, 20>>, 6)
           THEN /\ Emit([k |-> "session", field |-> Fi, ops |-> Append(out, [op |-> "index"])]) /\ st' = "end" /\ UNCHANGED <<s, j, out>>
           ELSE \E o \in {TLCEval(Op(<<i, 21, j>>))} : \E u \in {TLCEval(Do(Fields[Fi], s, o))} :
                  /\ s' = u.s /\ j' = j + 1 /\ out' = Append(out, o) /\ UNCHANGED st

(***************************************************************************)
(* What folding coefficients means for the values: each layer's values at  *)
(* x and -x give the next layer's at x^2.  (The verifier only sees values.)*)
(***************************************************************************)
Ff == Fields[IF MODE = "chk" THEN Rec.field ELSE Fi]
FoldsTo(a, b) ==
    LET m == Len(a.ev)
    IN \A k \in 1..(m \div 2) :
         b.ev[k] = Fold(Ff, a.ev[k], a.ev[k + m \div 2], a.zeta, FMul(Ff.p, a.off, FPow(Ff.p, Root(Ff, m), k - 1)))
Consistent == s.n <= 64 => \A k \in 1..(Len(s.layers) - 1) : FoldsTo(s.layers[k], s.layers[k + 1])

(***************************************************************************)
(* Checking.                                                               *)
(***************************************************************************)
Follow == /\ MODE = "chk" /\ st = "start" /\ j < Len(Rec.ops) /\ UNCHANGED <<st, i>>
          /\ LET o == Rec.ops[j + 1]
             IN \E u \in {TLCEval(Do(Ff, s, o))} :
                  /\ s' = u.s /\ j' = j + 1
                  /\ out' = IF Has(Rec, "res") /\ Len(Rec.res) > j /\ Rec.res[j + 1] = u.r THEN out ELSE Append(out, o.op)
Judge == /\ MODE = "chk" /\ st = "start" /\ j = Len(Rec.ops) /\ st' = "end" /\ UNCHANGED <<i, s, j, out>>
         /\ Emit([id |-> Rec.id, bad |-> out, steps |-> j, n |-> j])
Next == Walk \/ Follow \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
