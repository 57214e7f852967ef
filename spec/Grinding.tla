------------------------------ MODULE Grinding ------------------------------
(***************************************************************************)
(* Proof of work.  The prover scans nonces from zero until one does enough *)
(* work; the verifier measures the work of the nonce it is given.  The     *)
(* states are (challenge, factor, next nonce to try); Found is terminal.   *)
(***************************************************************************)
EXTENDS Env

\* trailing zero bits of the first eight digest bytes read as a big-endian integer
Work(ch, nonce) == LET n == NatBe(BSub(Keccak(ch \o Le(nonce, 8)), 0, 8))
                   IN IF n = "0" THEN 64 ELSE NTz(n)
Challenge(k) == IF k = 0 THEN BCat([j \in 1..32 |-> "00"])
                ELSE IF k = 1 THEN BCat([j \in 1..32 |-> "ff"]) ELSE Hash(<<k, 99>>)
Factors(k) == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>
              \o (IF k % 8 = 2 THEN <<14, 16, 17>> ELSE <<>>) \o (IF k = 2 THEN <<18>> ELSE <<>>)
\* nonces whose bytes all matter
Nonces(k) == <<"0", "1", "ff", "100", "ffff", "10000", "ffffffff", "100000000", "123456789abcdef0",
               "7fffffffffffffff", "8000000000000000", "ffffffffffffffff">>
             \o TLCEval([j \in 1..20 |-> NatBe(BSub(Hash(<<k, j, 98>>), 0, 8))])
Scenario(k) == [id |-> k, k |-> "grind", ch |-> Challenge(k), factors |-> Factors(k), nonces |-> Nonces(k),
                search |-> 18]

\* judging: r.works[j] the measured work, r.found[j] the prover's nonce for factor j;
\* r.deep: nonces doing much work, with the implementation's measurement
VARIABLES st, i, j, n, bad
Init == /\ st = "start" /\ j = 1 /\ n = 0 /\ bad = {}
        /\ i \in IF MODE = "gen" THEN 0..(SIZE - 1) ELSE 1..Len(Recs)
r == Recs[i]
Gen == /\ MODE = "gen" /\ st = "start" /\ Emit(Scenario(i)) /\ st' = "end" /\ UNCHANGED <<i, j, n, bad>>
Measure == /\ MODE = "chk" /\ st = "start" /\ st' = "scan" /\ UNCHANGED <<i, j, n>>
           /\ bad' = {"work:" \o r.nonces[k] : k \in {k \in 1..Len(r.nonces) : r.works[k] # Work(r.ch, r.nonces[k])}}
                     \cup {"work:" \o r.deep[k].nonce : k \in {k \in 1..Len(r.deep) : r.deep[k].work # Work(r.ch, r.deep[k].nonce)}}
\* the prover's scan, nonce by nonce (blocks of them where much work is asked for)
Block == IF r.factors[j] > 11 THEN 512 ELSE 1
Enough == {m \in n..(n + Block - 1) : Work(r.ch, Hex(m)) >= r.factors[j]}
Try(hits) == hits = {} /\ n' = n + Block /\ UNCHANGED <<st, i, j, bad>>
Found(hits) ==
    /\ hits # {}
    \* a larger factor needs at least as large a nonce, so the scan goes on from here
    /\ n' = Min(hits)
    /\ bad' = IF r.found[j] = Hex(n') THEN bad ELSE bad \cup {"nonce:" \o ToString(r.factors[j])}
    /\ j' = j + 1
    /\ UNCHANGED <<st, i>>
Scan == /\ st = "scan" /\ j <= Len(r.factors)
        /\ \E hits \in {TLCEval(Enough)} : Try(hits) \/ Found(hits)
Finish == /\ st = "scan" /\ j > Len(r.factors)
          /\ Emit([id |-> r.id, bad |-> bad, steps |-> n, max |-> IF r.deep = <<>> THEN 0 ELSE r.deep[Len(r.deep)].work])
          /\ st' = "end" /\ UNCHANGED <<i, j, n, bad>>
Next == Gen \/ Measure \/ Scan \/ Finish
vars == <<st, i, j, n, bad>>
Spec == Init /\ [][Next]_vars
\* the scan never passes a nonce that does enough work (checked in every state)
Smallest == st = "scan" /\ j <= Len(r.factors) => \A m \in Max({0, n - 3})..(n - 1) : j = 1 \/ Work(r.ch, Hex(m)) < r.factors[j]
=============================================================================
