----------------------------- MODULE StarkTrace -----------------------------
(***************************************************************************)
(* Checks recorded runs of the implementation against the prover and       *)
(* verifier machines.  One behaviour per record and machine; the last step *)
(* reports what was observed and where it disagrees with the               *)
(* specification.  A record's meta.expect is the verdict the environment   *)
(* model (StarkEnv.tla) predicts, "any" when it depends on luck.           *)
(***************************************************************************)
EXTENDS StarkVerifier, StarkProver, Airs, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLES i, m, s

Has(r, f) == f \in DOMAIN r
AirFor(d, T) == IF d.kind = "cairo" THEN CairoAirOf(d.pub, T) ELSE DataAir(d)
VRec(r) == [fld |-> r.fld, vopts |-> r.vopts, air |-> AirFor(r.vdesc, r.proof.T), proof |-> r.proof]
MainOf(r) == IF Has(r, "main")
             THEN [c \in 1..Len(r.main[1]) |-> [k \in 1..Len(r.main) |-> r.main[k][c]]]
             ELSE r.cols
PRec(r) == LET q == TLCEval(MainOf(r)) IN [fld |-> r.fld, opts |-> r.opts, air |-> AirFor(r.desc, Len(q[1])), cols |-> q]

\* m = "v": replay the verifier on the recorded proof; "p": redo the proof;
\* "x": the prover gave no proof although one was to be made; "d": trace validation
Init == \E k \in 1..Len(Recs) :
           /\ i = k
           /\ \/ m = "v" /\ Has(Recs[k], "verify") /\ s = VStart
              \/ m = "p" /\ Recs[k].check = "full" /\ s = PStart
              \/ m = "x" /\ ~Has(Recs[k], "verify") /\ ~Has(Recs[k], "cases") /\ Recs[k].check # "full" /\ s = [ph |-> "noproof"]
              \/ m = "d" /\ Has(Recs[k], "cases") /\ s = [ph |-> "validate", n |-> 0, bad |-> {}, good |-> 0]

\* the recorded transcript of a verifier that may stop as soon as it knows it rejects:
\* everything up to its last challenge
RECURSIVE UpToChallenge(_)
UpToChallenge(l) == IF l = <<>> \/ l[Len(l)][1] = "c" THEN l ELSE UpToChallenge(SubSeq(l, 1, Len(l) - 1))
VLogOk(r, v) == CASE v.ph = "accept" -> r.vlog = v.t.ev
                  [] v.ph = "reject" /\ "shape" \notin v.why -> IsPrefixOf(UpToChallenge(r.vlog), v.t.ev)
                  [] OTHER -> TRUE

\* disagreements, by name
VBad(r, v) ==
    (IF v.ph = "undef" \/ (v.ph = "free" /\ r.verify # "panic") \/ r.verify = v.ph THEN {} ELSE {"verdict"})
    \cup (IF r.meta.expect \in {"any", r.verify} \/ v.ph = "undef" THEN {} ELSE {"expected"})
    \cup (IF r.verify # "panic" /\ Has(r, "vlog") /\ ~VLogOk(r, v) THEN {"vlog"} ELSE {})
    \cup (IF v.ph = "accept" /\ r.meta.samelog /\ Has(r, "plog") /\ r.plog # v.t.ev THEN {"plog"} ELSE {})
PBad(r, v) ==
    IF v.ph = "undef" THEN {}
    ELSE IF r.prove # "ok" THEN {"prove"}
    ELSE {"proof." \o f : f \in Differ(ProofOf(PRec(r), v), r.proof0)}
         \cup (IF r.plog = v.t.ev THEN {} ELSE {"plog"})
\* trace validation, case by case: the full trace with some cells changed is called valid
\* exactly when it satisfies the statement
DRec(r) == [fld |-> r.fld, air |-> AirFor(r.desc, Len(r.cols[1])), cols |-> r.cols]
DCh(r) == DrawFes(r.fld, TrAbs(TrNew, r.seed), r.desc.nch).q
Cell(F, cols, c) == [cols EXCEPT ![c.col + 1][c.row + 1] = FAdd(F.p, @, c.d)]
DHolds(r, case) == Satisfies(r.fld, r.desc,
                             FoldLeft(LAMBDA q, c : TLCEval(Cell(r.fld, q, c)), r.cols \o AuxCols(DRec(r), DCh(r)), case), DCh(r))
DStep(r, v) ==
    IF AuxUndef(DRec(r), DCh(r)) THEN [v EXCEPT !.n = Len(r.cases), !.ph = "undef"]
    ELSE IF ~Has(r, "valid") THEN [v EXCEPT !.n = Len(r.cases), !.bad = {"debug"}]
    ELSE LET k == v.n + 1
             h == DHolds(r, r.cases[k])
         IN [v EXCEPT !.n = k, !.good = IF h THEN @ + 1 ELSE @,
                      !.bad = IF r.valid[k] = (IF h THEN "accept" ELSE "reject") THEN @ ELSE @ \cup {"debug"}]
Out(r, v, bad) ==
    PrintT("@@" \o ToJson([id |-> r.id, m |-> m, fam |-> r.meta.fam, ph |-> v.ph, bad |-> bad,
                           real |-> IF m = "v" THEN r.verify ELSE IF m = "d" THEN ToString(s.good) ELSE r.prove,
                           why |-> IF m = "v" THEN v.why ELSE {},
                           again |-> IF m = "v" /\ Has(v.e, "again") THEN v.e.again ELSE 0,
                           steps |-> IF m = "x" THEN 0 ELSE IF m = "d" THEN s.n ELSE Len(v.t.ev)]))
Report(r) == CASE m = "v" -> Out(r, s, VBad(r, s))
               [] m = "p" -> Out(r, s, PBad(r, s))
               [] m = "d" -> Out(r, s, s.bad)
               \* (nobody promises a proof of a false statement: the quotients need not fit the field)
               [] m = "x" -> Out(r, s, IF r.meta.fam = "false" \/ SubSeq(r.prove, 1, 4) = "skip" \/ r.prove \in {"ok", "forged"} THEN {} ELSE {"prove"})
Done == CASE m = "v" -> VDone(s) [] m = "p" -> PDone(s)
               [] m = "d" -> s.n = Len(Recs[i].cases) [] OTHER -> TRUE
Next == /\ s.ph # "end"
        /\ UNCHANGED <<i, m>>
        /\ IF Done THEN Report(Recs[i]) /\ s' = [ph |-> "end"]
           ELSE s' = TLCEval(IF m = "v" THEN VStep(VRec(Recs[i]), s) ELSE IF m = "d" THEN DStep(Recs[i], s) ELSE PStep(PRec(Recs[i]), s))
=============================================================================
