------------------------------- MODULE Nat16 -------------------------------
(***************************************************************************)
(* Natural numbers of any size, written as minimal lower-case hexadecimal  *)
(* strings ("0", "1f", ...), and byte strings written as hexadecimal       *)
(* strings of even length.                                                 *)
(*                                                                         *)
(* TLC's integers stop at 2^31, so each operator below is defined through  *)
(* its meaning on integers (exact whenever the numbers are small) and is   *)
(* overridden in TLC by java/Nat16.java, which computes the same function  *)
(* on numbers of any size.  SelfTest.tla compares the two.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Digits == "0123456789abcdef"
LOCAL DigitAt(d) == SubSeq(Digits, d + 1, d + 1)
LOCAL ValOf(c) == CHOOSE d \in 0..15 : DigitAt(d) = c

\* Conversions between the notation and TLA+ integers.
RECURSIVE RefHex(_)
RefHex(n) == IF n < 16 THEN DigitAt(n) ELSE RefHex(n \div 16) \o DigitAt(n % 16)
RECURSIVE RefInt(_)
RefInt(s) == IF Len(s) = 0 THEN 0
             ELSE 16 * RefInt(SubSeq(s, 1, Len(s) - 1)) + ValOf(SubSeq(s, Len(s), Len(s)))

Hex(n) == RefHex(n)              \* integer -> number
ToInt(a) == RefInt(a)              \* number -> integer

NAdd(a, b) == Hex(ToInt(a) + ToInt(b))
NSub(a, b) == Hex(ToInt(a) - ToInt(b))              \* a >= b
NMul(a, b) == Hex(ToInt(a) * ToInt(b))
NDiv(a, b) == Hex(ToInt(a) \div ToInt(b))
NMod(a, b) == Hex(ToInt(a) % ToInt(b))
NLt(a, b)  == ToInt(a) < ToInt(b)
NLe(a, b)  == ToInt(a) <= ToInt(b)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN "1" ELSE NMul("2", Pow2(k - 1))
\* a mod 2^k, a div 2^k, number of bits, number of trailing zero bits (of a > 0)
NLow(a, k) == NMod(a, Pow2(k))
NShr(a, k) == NDiv(a, Pow2(k))
RECURSIVE NBits(_)
NBits(a) == IF a = "0" THEN 0 ELSE 1 + NBits(NDiv(a, "2"))
RECURSIVE NTz(_)
NTz(a) == IF NMod(a, "2") = "1" THEN 0 ELSE 1 + NTz(NDiv(a, "2"))

(***************************************************************************)
(* Byte strings.                                                           *)
(***************************************************************************)
BLen(b) == Len(b) \div 2
\* bytes i+1 .. i+n
BSub(b, i, n) == SubSeq(b, 2 * i + 1, 2 * (i + n))
RECURSIVE RefTrim(_)
RefTrim(b) == IF Len(b) > 1 /\ SubSeq(b, 1, 1) = "0" THEN RefTrim(SubSeq(b, 2, Len(b))) ELSE b
RECURSIVE RefPad(_, _)
RefPad(s, w) == IF Len(s) >= w THEN s ELSE RefPad("0" \o s, w)
RECURSIVE RefRev(_)
RefRev(b) == IF Len(b) = 0 THEN "" ELSE SubSeq(b, Len(b) - 1, Len(b)) \o RefRev(SubSeq(b, 1, Len(b) - 2))
RECURSIVE RefCat(_)
RefCat(q) == IF Len(q) = 0 THEN "" ELSE Head(q) \o RefCat(Tail(q))

Be(a, n)  == RefPad(a, 2 * n)     \* n-byte big-endian encoding of a number
NatBe(b)  == IF Len(b) = 0 THEN "0" ELSE RefTrim(b)     \* and back
BRev(b)   == RefRev(b)            \* bytes in reverse order
BCat(q)   == RefCat(q)            \* concatenation of a sequence of byte strings
Le(a, n)  == BRev(Be(a, n))
NatLe(b)  == NatBe(BRev(b))
=============================================================================
