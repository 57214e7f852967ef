------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Keccak-256 (the original padding, as Ethereum and this prover use it)   *)
(* on byte strings in hexadecimal.  RefKeccak is the definition, bit by    *)
(* bit; Keccak is the same function, overridden by java/Keccak.java.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Nat16, TLC

LOCAL Hx == "0123456789abcdef"
LOCAL Dig(c) == CHOOSE d \in 0..15 : SubSeq(Hx, d + 1, d + 1) = c
\* bits of a byte string, least significant bit of each byte first
LOCAL BitsOf(b) == TLCEval([i \in 1..(4 * Len(b)) |->
    LET byte == (i - 1) \div 8
        k    == (i - 1) % 8
        d    == IF k >= 4 THEN Dig(SubSeq(b, 2 * byte + 1, 2 * byte + 1))
                          ELSE Dig(SubSeq(b, 2 * byte + 2, 2 * byte + 2))
    IN (d \div (2 ^ (k % 4))) % 2])
RECURSIVE HexOf(_)
HexOf(q) == IF Len(q) = 0 THEN ""
            ELSE LET lo == q[1] + 2 * q[2] + 4 * q[3] + 8 * q[4]
                     hi == q[5] + 2 * q[6] + 4 * q[7] + 8 * q[8]
                 IN SubSeq(Hx, hi + 1, hi + 1) \o SubSeq(Hx, lo + 1, lo + 1)
                    \o HexOf(SubSeq(q, 9, Len(q)))
LOCAL X(a, b) == (a + b) % 2

Rate == 1088
\* state: bit (x, y, z) at position 64 (5 y + x) + z, counted from 0
LOCAL At(s, x, y, z) == s[64 * (5 * (y % 5) + (x % 5)) + (z % 64) + 1]
LOCAL Coord(i, f(_, _, _)) == LET l == (i - 1) \div 64
                              IN f(l % 5, l \div 5, (i - 1) % 64)
LOCAL Build(f(_, _, _)) == TLCEval([i \in 1..1600 |-> Coord(i, f)])

LOCAL Theta(s) ==
    LET C == TLCEval([x \in 0..4 |-> [z \in 0..63 |->
               (At(s, x, 0, z) + At(s, x, 1, z) + At(s, x, 2, z) + At(s, x, 3, z) + At(s, x, 4, z)) % 2]])
        f(x, y, z) == (At(s, x, y, z) + C[(x + 4) % 5][z] + C[(x + 1) % 5][(z + 63) % 64]) % 2
    IN Build(f)
LOCAL Rot == << <<0, 36, 3, 41, 18>>, <<1, 44, 10, 45, 2>>, <<62, 6, 43, 15, 61>>,
                <<28, 55, 25, 21, 56>>, <<27, 20, 39, 8, 14>> >>   \* Rot[x+1][y+1]
LOCAL Rho(s) == LET f(x, y, z) == At(s, x, y, z + 64 - Rot[x + 1][y + 1]) IN Build(f)
LOCAL Pi(s)  == LET f(x, y, z) == At(s, x + 3 * y, x, z) IN Build(f)
LOCAL Chi(s) == LET f(x, y, z) == X(At(s, x, y, z), (1 - At(s, x + 1, y, z)) * At(s, x + 2, y, z)) IN Build(f)
\* round constants: output bits of the degree-8 shift register
RECURSIVE Lfsr(_)
Lfsr(n) == IF n = 0 THEN <<1, 0, 0, 0, 0, 0, 0, 0>>
           ELSE LET r == Lfsr(n - 1)
                    q == <<0>> \o r
                IN << (q[1] + q[9]) % 2, q[2], q[3], q[4], (q[5] + q[9]) % 2,
                      (q[6] + q[9]) % 2, (q[7] + q[9]) % 2, q[8] >>
LOCAL Rc(t) == Lfsr(t % 255)[1]
LOCAL RcBit(rnd, z) == IF \E j \in 0..6 : z = 2 ^ j - 1
                       THEN Rc((CHOOSE j \in 0..6 : z = 2 ^ j - 1) + 7 * rnd) ELSE 0
LOCAL Iota(s, rnd) == LET k == TLCEval([z \in 0..63 |-> RcBit(rnd, z)])
                          f(x, y, z) == IF x = 0 /\ y = 0 THEN X(At(s, x, y, z), k[z]) ELSE At(s, x, y, z)
                      IN Build(f)
RECURSIVE Rounds(_, _)
Rounds(s, r) == IF r = 24 THEN s ELSE Rounds(Iota(Chi(Pi(Rho(Theta(s)))), r), r + 1)

LOCAL Padded(m) == LET n == Len(m)
                       k == (2 * Rate - 2 - (n % Rate)) % Rate
                   IN TLCEval(m \o <<1>> \o [i \in 1..k |-> 0] \o <<1>>)
RECURSIVE Absorb(_, _)
Absorb(s, m) == IF Len(m) = 0 THEN s
                ELSE Absorb(Rounds(TLCEval([i \in 1..1600 |-> IF i <= Rate THEN X(s[i], m[i]) ELSE s[i]]), 0),
                            SubSeq(m, Rate + 1, Len(m)))
RefKeccak(b) == HexOf(SubSeq(Absorb([i \in 1..1600 |-> 0], Padded(BitsOf(b))), 1, 256))

Keccak(b) == RefKeccak(b)
=============================================================================
