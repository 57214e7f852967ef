------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Instruction words.  Every flag word of 15 bits and every value of each  *)
(* offset appear; scenario b asks for the words numbered Batch*b onwards.  *)
(***************************************************************************)
EXTENDS Words, Env

Batch == 512
\* word k of round m: all flag words twice, each offset a permutation of all its values; in the
\* first rounds the permutations are fixed, later ones are drawn
Odd(m, j) == CASE m = 0 -> <<1, 3, 5>>[j] [] m = 1 -> <<65535, 32769, 257>>[j] [] OTHER -> 2 * Pick(<<m, j, 70>>, 32768) + 1
Off(m, j) == CASE m = 0 -> 0 [] m = 1 -> <<1, 32767, 255>>[j] [] OTHER -> Pick(<<m, j, 71>>, 65536)
OffOf(m, j, k) == ToInt(NLow(NAdd(NMul(Hex(k), Hex(Odd(m, j))), Hex(Off(m, j))), 16)) - 32768
FlagsOf(m, k) == IF m = 0 THEN k % 32768 ELSE ToInt(NLow(NMul(Hex(k), Hex(Odd(m, 1))), 15))
Words(b) ==
    LET m == b \div 128
    IN TLCEval([i \in 1..Batch |-> LET k == (b % 128) * Batch + i - 1
                                   IN WordOf(FlagsOf(m, k), <<OffOf(m, 1, k), OffOf(m, 2, k), OffOf(m, 3, k)>>)])

VARIABLES st, i
Init == st = "start" /\ i \in IF MODE = "gen" THEN 0..(128 * SIZE - 1) ELSE 1..Len(Recs)
Gen == /\ MODE = "gen" /\ st = "start" /\ st' = "end" /\ UNCHANGED i
       /\ Emit([k |-> "decode", insts |-> Words(i)])
Chk == /\ MODE = "chk" /\ st = "start" /\ st' = "end" /\ UNCHANGED i
       /\ \E r \in {TLCEval(Recs[i])} :
            LET n == Len(r.insts)
            IN Emit([id |-> r.id, n |-> n, steps |-> n,
                     oks |-> Cardinality({k \in 1..n : r.res[k].ok = 1}),
                     bad |-> {r.insts[k] \o " gave " \o ToJson(r.res[k]) : k \in {k \in 1..n : ~Right(r.insts[k], r.res[k])}}])
Next == Gen \/ Chk
Spec == Init /\ [][Next]_<<st, i>>
=============================================================================
