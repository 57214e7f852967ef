--------------------------- MODULE StarkVerifier ---------------------------
(***************************************************************************)
(* The verifier as a state machine.  One behaviour per recorded proof:     *)
(* the machine reads the proof's messages in protocol order, derives every *)
(* challenge, and ends in "accept", "reject" or "undef"; "free" is any     *)
(* answer at all, for a blowup factor that stands for no domain.           *)
(* R : the record [fld, vopts, air, proof, ...]                            *)
(***************************************************************************)
EXTENDS Stark

\* s : phase, transcript, environment of challenges, elementary checks failed so far
VStart == [ph |-> "shape", t |-> TrNew, e |-> [z |-> "0"], why |-> {}]
VRej(s, w) == [s EXCEPT !.ph = "reject", !.why = {w}]
VGo(s, ph, t, e) == [ph |-> ph, t |-> t, e |-> TLCEval(e @@ s.e), why |-> s.why]
\* a batch of elementary checks: c is the set of the names of those that fail
VChk(s, ph, c) == [s EXCEPT !.ph = ph, !.why = TLCEval(@ \cup c)]
Fails(name, ok) == IF ok THEN {} ELSE {name}
At(name, j) == name \o ":" \o ToString(j)

\* step 0: everything the statement and the options call for is there
ShapeOk(R) ==
    LET pr == R.proof
        A  == R.air
        T  == pr.T
        nl == NLayers(T)
        k  == Log2(T * R.vopts.blowup)
        nt == IF A.aux > 0 THEN 2 ELSE 1
    IN /\ A.kind = "cairo" => CairoComplete(A.pub)
       /\ IsPow2(T)
       /\ FRed(R.fld.p, R.vopts.off) # "0"
       /\ k <= R.fld.ad
       /\ pr.oodw = A.cols
       /\ Len(pr.ood) = Len(A.offs)
       /\ Len(pr.roots) = nt
       /\ Len(pr.froots) = nl
       /\ Len(pr.q) = R.vopts.nq
       /\ Len(pr.o) = R.vopts.nq
       /\ \A j \in 1..Len(pr.o) :
            /\ Len(pr.o[j].te) = A.cols
            /\ Len(pr.o[j].cp) = k
            /\ Len(pr.o[j].tp) = nt
            /\ \A m \in 1..nt : Len(pr.o[j].tp[m]) = k
       /\ \A j \in 1..Len(pr.q) :
            /\ Len(pr.q[j].e) = nl /\ Len(pr.q[j].es) = nl
            /\ Len(pr.q[j].p) = nl /\ Len(pr.q[j].ps) = nl
            /\ \A m \in 1..nl : Len(pr.q[j].p[m]) = k - m + 1 /\ Len(pr.q[j].ps[m]) = k - m + 1

\* step 2: the claimed composition value is the one the constraints dictate
OodOk(R, e) ==
    LET pr == R.proof
        A  == R.air
        T  == pr.T
        p  == R.fld.p
        bs == AirBound(R.fld, A, e.rap)
    IN /\ \A k \in 1..Len(bs) : bs[k].step < T
       /\ FAdd(p, pr.h1, FMul(p, e.z, pr.h2)) = CompAt(R.fld, A, T, e.z, pr.ood, e.rap, e.cf)

\* step 3: query j, layer k: the values fold to the next one, and both are opened
FriLayerBad(R, e, j, k) ==
    LET pr == R.proof
        F  == R.fld
        N  == pr.T * R.vopts.blowup
        nl == Len(pr.froots)
        io == e.iotas[j]
        m  == N \div 2 ^ (k - 1)                 \* size of layer k
        x  == FPow(F.p, LdePt(F, R.vopts, N, io), 2 ^ (k - 1))
        q  == pr.q[j]
        nx == IF k < nl THEN q.e[k + 1] ELSE pr.last
    IN Fails(At(At("fold", k), j), Fold(F, q.e[k], q.es[k], e.zetas[k], x) = nx)
       \cup Fails(At(At("fri", k), j), Opens(F, pr.froots[k], q.p[k], io % m, <<q.e[k]>>))
       \cup Fails(At(At("frisym", k), j), Opens(F, pr.froots[k], q.ps[k], (io + m \div 2) % m, <<q.es[k]>>))
\* step 4: openings of trace and composition values, and the DEEP identity
OpenBad(R, e, j) ==
    LET pr == R.proof
        F  == R.fld
        A  == R.air
        nm == A.cols - A.aux
        io == e.iotas[j]
        o  == pr.o[j]
        x  == LdePt(F, R.vopts, pr.T * R.vopts.blowup, io)
    IN Fails(At("comp", j), Opens(F, pr.croot, o.cp, io, <<o.ce, o.co>>))
       \cup Fails(At("main", j), Opens(F, pr.roots[1], o.tp[1], io, SubSeq(o.te, 1, nm)))
       \cup Fails(At("aux", j), A.aux > 0 => Opens(F, pr.roots[2], o.tp[2], io, SubSeq(o.te, nm + 1, A.cols)))
       \cup Fails(At("deep", j), pr.q[j].e[1] = DeepAt(F, R.air, pr.T, x, o.te, o.ce, o.co, pr.ood, pr.h1, pr.h2, e))

VStep(R, s) ==
    LET F  == R.fld
        O  == R.vopts
        A  == R.air
        pr == R.proof
        T  == pr.T
        N  == T * O.blowup
        e  == s.e
    IN CASE s.ph = "shape" ->
              IF ~IsPow2(O.blowup) THEN [s EXCEPT !.ph = "free"]
              ELSE IF ShapeOk(R) THEN VGo(s, "main", TrAbs(s.t, pr.roots[1]), <<>>)
              ELSE VRej(s, "shape")
         [] s.ph = "main" ->
              LET d == DrawFes(F, s.t, A.nch)
              IN VGo(s, "coeff", IF A.aux > 0 THEN TrAbs(d.t, pr.roots[2]) ELSE d.t, [rap |-> d.q])
         [] s.ph = "coeff" ->
              LET nb == Len(AirBound(F, A, e.rap))
                  nt == Len(A.exs)
                  d  == DrawFes(F, s.t, 2 * nb + 2 * nt)
                  q  == d.q
              IN VGo(s, "z", TrAbs(d.t, pr.croot),
                     [cf |-> [ab |-> SubSeq(q, 1, nb), bb |-> SubSeq(q, nb + 1, 2 * nb),
                              at |-> SubSeq(q, 2 * nb + 1, 2 * nb + nt),
                              bt |-> SubSeq(q, 2 * nb + nt + 1, 2 * nb + 2 * nt)]])
         [] s.ph = "z" ->
              LET d  == DrawZ(F, O, T, N, s.t)
                  fr == BCat(TLCEval([k \in 1..Len(pr.ood) |->
                          BCat(TLCEval([j \in 1..A.cols |-> Be(pr.ood[k][j], F.nb)]))]))
              IN VGo(s, "gamma", TrAbs(d.t, Be(pr.h1, F.nb) \o Be(pr.h2, F.nb) \o fr), [z |-> d.z, again |-> d.again])
         [] s.ph = "gamma" ->
              LET d == DrawFes(F, s.t, 2 + A.cols * Len(A.offs))
              IN VGo(s, "fri", d.t, [ge |-> d.q[1], go |-> d.q[2],
                                     gam |-> SubSeq(d.q, 3, Len(d.q)), zetas |-> <<>>])
         [] s.ph = "fri" ->
              LET k == Len(e.zetas) + 1
              IN IF k <= Len(pr.froots)
                 THEN LET d == DrawFes(F, TrAbs(s.t, pr.froots[k]), 1)
                      IN VGo(s, "fri", d.t, [zetas |-> Append(e.zetas, d.q[1])])
                 ELSE LET d == TrCh(TrAbs(s.t, Be(pr.last, F.nb)))
                      IN VGo(s, "query", TrAbs(d.t, pr.nonce), [gch |-> d.c])
         [] s.ph = "query" ->
              LET d == DrawIdx(s.t, N, O.nq)
              IN VGo(s, "grind", d.t, [iotas |-> d.q])
         [] s.ph = "grind" -> VChk(s, "ood", Fails("grinding", Work(e.gch, pr.nonce) >= O.grind))
         [] s.ph = "ood"   -> VChk(s, "openfri", Fails("ood", OodOk(R, e)))
         [] s.ph = "openfri" ->
              VChk(s, "deep", UNION {FriLayerBad(R, e, j, k) : j \in 1..O.nq, k \in 1..Len(pr.froots)})
         [] s.ph = "deep" ->
              IF \E j \in 1..O.nq : DeepUndef(F, A, T, LdePt(F, O, N, e.iotas[j]), e.z)
              THEN [s EXCEPT !.ph = "undef"]
              ELSE VChk(s, "verdict", UNION {OpenBad(R, e, j) : j \in 1..O.nq})
         [] s.ph = "verdict" -> [s EXCEPT !.ph = IF s.why = {} THEN "accept" ELSE "reject"]
VDone(s) == s.ph \in {"accept", "reject", "undef", "free"}

\* the part of the history both parties share: messages and challenges in order
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
