------------------------------ MODULE WireRun ------------------------------
(***************************************************************************)
(* Encoded values and damaged encodings, for the implementation to decode. *)
(* PROFILE "proof", "pub": generated values; "lumpproof", "lumppub": values *)
(* with very long lists, given by a rule; "real": the proofs and public    *)
(* inputs in REAL, to be decoded and verified.  In a run a value is        *)
(* encoded, read back, and then damaged in one way at a time; the          *)
(* invariant says that reading back gives the value.                       *)
(***************************************************************************)
EXTENDS Wire

PROFILE == IOEnv.PROFILE
Real == IF PROFILE = "real" /\ MODE = "gen" THEN ndJsonDeserialize(IOEnv.REAL) ELSE <<>>
NMut == ToInt(IOEnv.NMUT)
NCut == ToInt(IOEnv.NCUT)

VARIABLES st, i, x
vars == <<st, i, x>>
Init == /\ st = "start" /\ x = <<>>
        /\ i \in IF MODE = "chk" THEN 1..Len(Recs) ELSE IF PROFILE = "real" THEN 1..Len(Real) ELSE 1..SIZE
Lumped == PROFILE \in {"lumpproof", "lumppub"}
Dec(b) == IF PROFILE = "pub" THEN DecPub(b) ELSE DecProof(b)
Kind == IF PROFILE = "pub" THEN "pub" ELSE "proof"

\* the value, its tokens and its bytes
Make == /\ MODE = "gen" /\ st = "start" /\ PROFILE # "real" /\ ~Lumped /\ st' = "made" /\ UNCHANGED i
        /\ x' = TLCEval(LET v == IF PROFILE = "pub" THEN GenPub(<<i>>) ELSE GenProof(<<i>>)
                            t == IF PROFILE = "pub" THEN PubT(v, Pick(<<i, 2>>, 2) = 0) ELSE ProofT(v)
                        IN [v |-> v, t |-> t, b |-> Bytes(t)])
Emitted == /\ MODE = "gen" /\ st = "made" /\ st' = "end" /\ UNCHANGED <<i, x>>
           /\ Emit([k |-> IF PROFILE = "pub" THEN "pubwire" ELSE "proofwire", val |-> x.v, bytes |-> x.b, muts |-> Muts(x.b, x.t, <<i, 3>>, NMut, NCut)])
MakeReal == /\ MODE = "gen" /\ st = "start" /\ PROFILE = "real" /\ st' = "end" /\ UNCHANGED <<i, x>>
            /\ \E R \in {TLCEval(Real[i])} :
                 \E d \in {TLCEval(DecProof(R.proof))} :
                   \E p \in {TLCEval(DecPub(R.pubin))} :
                     Emit([k |-> "wireverify", proof |-> R.proof, pubin |-> R.pubin, opts |-> R.opts,
                           muts |-> Muts(R.proof, ProofT(d.v), <<i, 4>>, NMut, NCut),
                           pmuts |-> Muts(R.pubin, PubT(p.v, p.order # <<"out", "rc">>), <<i, 5>>, NMut, NCut)])
ReadBack == st = "made" => LET d == TLCEval(Dec(x.b)) IN d.ok /\ d.v = x.v /\ Canonical(Kind, x.b, d)

Same(v, w) == IF PROFILE = "pub" THEN SamePub(v, w) ELSE v = w
\* what came of one damaged string; o : [s, v]
Judge(b0, v0, m, o) ==
    LET b == TLCEval(Apply(b0, m))
        d == TLCEval(Dec(b))
    IN CASE o.s = "panic" -> {"panic"}
         [] o.s = "ok" /\ ((m.o = "cut" /\ Same(o.v, v0)) \/ (d.ok /\ ~Same(o.v, d.v))) -> {"value"}
         [] o.s = "err" /\ Canonical(Kind, b, d) -> {"refused"}
         [] OTHER -> {}
Coverage(bs) == [err |-> Cardinality({k \in 1..Len(bs) : bs[k] = "err"}), ok |-> Cardinality({k \in 1..Len(bs) : bs[k] = "ok"})]
Check == /\ MODE = "chk" /\ st = "start" /\ PROFILE # "real" /\ ~Lumped /\ st' = "end" /\ UNCHANGED <<i, x>>
         /\ \E r \in {TLCEval(Recs[i])} :
              \E d \in {TLCEval(Dec(r.enc))} :
                Emit([id |-> r.id, n |-> Len(r.res), steps |-> Len(r.res),
                      oks |-> Cardinality({k \in 1..Len(r.res) : r.res[k].s = "ok"}),
                      bad |-> (IF d.ok /\ Same(d.v, r.val) /\ Canonical(Kind, r.enc, d) THEN {} ELSE {"encoding"})
                              \cup (IF PROFILE = "pub" \/ r.enc = r.bytes THEN {} ELSE {"layout"})
                              \cup (IF r.dec.s = "ok" /\ Same(r.dec.v, r.val) THEN {} ELSE {"round trip"})
                              \* and the specification's encoding, whose maps may be in another order
                              \cup (IF r.dec2.s = "ok" /\ Same(r.dec2.v, r.val) THEN {} ELSE {"decoding"})
                              \cup UNION {{y \o ":" \o ToJson(r.muts[k]) : y \in Judge(r.bytes, r.val, r.muts[k], r.res[k])} : k \in 1..Len(r.res)}])

\* what verification depends on: not the initial fp (a known finding), nor where the segments are
Bound(p) == [p EXCEPT !.fp_init = "0", !.rc = IF @ = <<>> THEN <<>> ELSE <<"0">>, !.out = <<>>]
JudgeReal(same, m, o) ==
    CASE o = "panic" -> {"panic"}
      [] o = "accept" /\ ~same -> {"accepted"}
      [] o # "accept" /\ same -> {"refused"}
      [] OTHER -> {}
SameProof(b, d0) == LET d == TLCEval(DecProof(b)) IN d.ok /\ d.v = d0.v
SameClaim(b, p0) == LET d == TLCEval(DecPub(b)) IN d.ok /\ SamePub(Bound(d.v), Bound(p0.v))
CheckReal == /\ MODE = "chk" /\ st = "start" /\ PROFILE = "real" /\ st' = "end" /\ UNCHANGED <<i, x>>
             /\ \E r \in {TLCEval(Recs[i])} :
                  \E d0 \in {TLCEval(DecProof(r.proof))} :
                    \E p0 \in {TLCEval(DecPub(r.pubin))} :
                      Emit([id |-> r.id, n |-> Len(r.res) + Len(r.pres), steps |-> Len(r.res) + Len(r.pres),
                            oks |-> Cardinality({k \in 1..Len(r.res) : r.res[k] = "accept"}) + Cardinality({k \in 1..Len(r.pres) : r.pres[k] = "accept"}),
                            bad |-> (IF r.own = "accept" THEN {} ELSE {"own"})
                                    \cup UNION {{y \o ":" \o ToJson(r.muts[k]) : y \in JudgeReal(SameProof(Apply(r.proof, r.muts[k]), d0), r.muts[k], r.res[k])} : k \in 1..Len(r.res)}
                                    \cup UNION {{y \o " claim:" \o ToJson(r.pmuts[k]) : y \in JudgeReal(SameClaim(Apply(r.pubin, r.pmuts[k]), p0), r.pmuts[k], r.pres[k])} : k \in 1..Len(r.pres)}])
MakeLump == /\ MODE = "gen" /\ st = "start" /\ Lumped /\ st' = "end" /\ UNCHANGED <<i, x>>
            /\ Emit([k |-> IF PROFILE = "lumppub" THEN "publump" ELSE "prooflump", c |-> WireLumpCase(PROFILE = "lumppub", <<i>>)])
CheckLump == /\ MODE = "chk" /\ st = "start" /\ Lumped /\ st' = "end" /\ UNCHANGED <<i, x>>
             /\ \E r \in {TLCEval(Recs[i])} :
                  Emit([id |-> r.id, n |-> 1, steps |-> 1 + Len(r.cuts), oks |-> 1, bad |-> LumpJudge(PROFILE = "lumppub", r.c, r)])
Next == MakeLump \/ CheckLump \/ Make \/ Emitted \/ MakeReal \/ Check \/ CheckReal
Spec == Init /\ [][Next]_vars
=============================================================================
