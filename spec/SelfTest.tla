------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* Run twice, with and without the Java overrides: both runs print the     *)
(* same table, so the overrides compute what the modules define.           *)
(***************************************************************************)
EXTENDS Keccak, PrimeField, TLC

VARIABLES x
P == "c1"     \* 193; 125 has order 64
NatRow(a, b) == << NAdd(Hex(a), Hex(b)), NSub(Hex(a + b), Hex(b)), NMul(Hex(a), Hex(b)),
                   NDiv(Hex(a), Hex(b + 1)), NMod(Hex(a), Hex(b + 1)), NLt(Hex(a), Hex(b)),
                   NLe(Hex(a), Hex(b)), Pow2(b % 20), NLow(Hex(a), b % 9), NShr(Hex(a), b % 9),
                   NBits(Hex(a)), NTz(Hex(a + 1)), Be(Hex(a), 4), NatBe(Be(Hex(a), 5)),
                   Le(Hex(a), 4), NatLe(Le(Hex(a), 3)), BCat(<<Be(Hex(a), 2), Be(Hex(b), 2)>>), ToInt(Hex(a)) >>
FRow(a, b) == LET u == Hex(a)
                  v == Hex(b)
                  q == <<u, v, Hex((a * b) % 193), "1">>
                  w == FPow(P, Hex(125), 16)
              IN << FAdd(P, u, v), FSub(P, u, v), FNeg(P, u), FMul(P, u, v), FPow(P, u, b), FPowN(P, u, v),
                    FInv(P, u), FInt(P, a - b), FSum(P, q), FProd(P, q), PEval(P, q, v),
                    PEvals(P, q, v, w, 4), PEvals(P, q, "5", FPow(P, Hex(125), 8), 8),
                    PEvals(P, q, "5", "3", 3), PInterp(P, q, "1", w), PInterp(P, q, "7", w), FRed(P, Hex(a * b)) >>
RECURSIVE Msg(_)
Msg(n) == IF n = 0 THEN "" ELSE Msg(n - 1) \o Be(Hex((n * 37) % 256), 1)

Init == x = 0
Next == /\ x < 14
        /\ x' = x + 1
        /\ IF x < 12
           THEN PrintT(<<"ROW", x, NatRow(x * 7919 + x, x * 31), FRow((x * 71) % 193, (x * 50 + 3) % 193)>>)
           ELSE IF x = 12 THEN PrintT(<<"ROW", x, [n \in {0, 1, 64, 135, 136, 140} |-> Keccak(Msg(n))]>>)
           ELSE PrintT(<<"ROW", x, BRev("0123"), NatBe(""), Keccak(Msg(271))>>)
=============================================================================
