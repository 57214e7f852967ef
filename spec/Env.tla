-------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* What every generator / checker pair shares: pseudo-random choices       *)
(* determined by SEED, printing a scenario, reading recorded outcomes.     *)
(* Environment: SEED (hex), SIZE (hex, how much to generate), MODE         *)
(* ("gen" prints scenarios, "chk" judges the records in RECS).             *)
(***************************************************************************)
EXTENDS PrimeField, Keccak, TLC, Json, IOUtils, FiniteSets, SequencesExt

SEED == IOEnv.SEED
SIZE == ToInt(IOEnv.SIZE)
MODE == IOEnv.MODE
Recs == IF MODE = "chk" THEN ndJsonDeserialize(IOEnv.RECS) ELSE <<>>

Hash(q) == Keccak(Be(SEED, 8) \o BCat(TLCEval([k \in 1..Len(q) |-> Be(Hex(q[k]), 4)])))
Pick(q, n)   == ToInt(NMod(NatBe(BSub(Hash(q), 0, 8)), Hex(n)))    \* 0..n-1
PickOf(q, s) == s[Pick(q, Len(s)) + 1]
Chance(q, percent) == Pick(q, 100) < percent
Emit(r) == PrintT("@@" \o ToJson(r))
Has(r, f) == f \in DOMAIN r
Flat(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
=============================================================================
