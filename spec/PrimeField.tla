----------------------------- MODULE PrimeField -----------------------------
(***************************************************************************)
(* Arithmetic modulo a prime p, polynomials over that field, and the       *)
(* transforms between coefficients and values.  Elements are canonical     *)
(* residues in the notation of Nat16.  Overridden for speed by             *)
(* java/PrimeField.java; SelfTest.tla compares override and definition.    *)
(***************************************************************************)
EXTENDS Nat16

FRed(p, a) == NMod(a, p)
FAdd(p, a, b) == NMod(NAdd(a, b), p)
FSub(p, a, b) == NMod(NSub(NAdd(a, p), b), p)
FNeg(p, a)    == FSub(p, "0", a)
FMul(p, a, b) == NMod(NMul(a, b), p)
RECURSIVE FPowN(_, _, _)
FPowN(p, a, n) == IF n = "0" THEN "1"
                  ELSE LET h == FPowN(p, a, NDiv(n, "2"))
                           q == FMul(p, h, h)
                       IN IF NMod(n, "2") = "1" THEN FMul(p, q, a) ELSE q
FPow(p, a, n) == FPowN(p, a, Hex(n))          \* n an integer
FInv(p, a)    == FPowN(p, a, NSub(p, "2"))    \* Fermat; 0 maps to 0
FInt(p, n)    == IF n >= 0 THEN FRed(p, Hex(n)) ELSE FNeg(p, FRed(p, Hex(-n)))

RECURSIVE FSum(_, _)
FSum(p, q) == IF Len(q) = 0 THEN "0" ELSE FAdd(p, Head(q), FSum(p, Tail(q)))
RECURSIVE FProd(_, _)
FProd(p, q) == IF Len(q) = 0 THEN "1" ELSE FMul(p, Head(q), FProd(p, Tail(q)))

\* value at x of the polynomial with coefficient sequence c (constant first)
RECURSIVE PEval(_, _, _)
PEval(p, c, x) == IF Len(c) = 0 THEN "0"
                  ELSE FAdd(p, Head(c), FMul(p, x, PEval(p, Tail(c), x)))
\* values at s, s w, s w^2, ..., n of them
PEvals(p, c, s, w, n) == [i \in 1..n |-> PEval(p, c, FMul(p, s, FPow(p, w, i - 1)))]
\* coefficients of the polynomial of degree < Len(v) with value v[i] at s w^(i-1),
\* where w has multiplicative order Len(v)
PInterp(p, v, s, w) ==
    LET n  == Len(v)
        ni == FInv(p, FInt(p, n))
        wi == FInv(p, w)
        si == FInv(p, s)
    IN [j \in 1..n |-> FMul(p, FMul(p, ni, FPow(p, si, j - 1)),
                            PEval(p, v, FPow(p, wi, j - 1)))]
=============================================================================
