import java.math.BigInteger;
import tlc2.value.impl.*;
/** TLC overrides of module Nat16. */
public class Nat16 {
  static BigInteger N(Value v) { return new BigInteger(((StringValue) v).getVal().toString(), 16); }
  static Value S(BigInteger b) { return new StringValue(b.toString(16)); }
  static String str(Value v) { return ((StringValue) v).getVal().toString(); }
  static int I(Value v) { return ((IntValue) v).val; }
  static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value Hex(final Value n) { return new StringValue(Integer.toHexString(I(n))); }
  public static Value ToInt(final Value a) { return IntValue.gen(N(a).intValueExact()); }
  public static Value NAdd(final Value a, final Value b) { return S(N(a).add(N(b))); }
  public static Value NSub(final Value a, final Value b) {
    BigInteger r = N(a).subtract(N(b));
    if (r.signum() < 0) throw new RuntimeException("NSub below zero");
    return S(r); }
  public static Value NMul(final Value a, final Value b) { return S(N(a).multiply(N(b))); }
  public static Value NDiv(final Value a, final Value b) { return S(N(a).divide(N(b))); }
  public static Value NMod(final Value a, final Value b) { return S(N(a).mod(N(b))); }
  public static Value NLt(final Value a, final Value b) { return B(N(a).compareTo(N(b)) < 0); }
  public static Value NLe(final Value a, final Value b) { return B(N(a).compareTo(N(b)) <= 0); }
  public static Value Pow2(final Value k) { return S(BigInteger.ONE.shiftLeft(I(k))); }
  public static Value NLow(final Value a, final Value k) { return S(N(a).mod(BigInteger.ONE.shiftLeft(I(k)))); }
  public static Value NShr(final Value a, final Value k) { return S(N(a).shiftRight(I(k))); }
  public static Value NBits(final Value a) { return IntValue.gen(N(a).bitLength()); }
  public static Value NTz(final Value a) { return IntValue.gen(N(a).getLowestSetBit()); }
  public static Value Be(final Value a, final Value n) {
    String s = str(a); int w = 2 * I(n);
    if (s.length() >= w) return a;
    StringBuilder q = new StringBuilder(w);
    for (int i = s.length(); i < w; i++) q.append('0');
    return new StringValue(q.append(s).toString()); }
  public static Value NatBe(final Value b) {
    String s = str(b); int i = 0;
    while (i < s.length() - 1 && s.charAt(i) == '0') i++;
    return new StringValue(s.isEmpty() ? "0" : s.substring(i)); }
  public static Value BRev(final Value b) {
    String s = str(b); StringBuilder q = new StringBuilder(s.length());
    for (int i = s.length() - 2; i >= 0; i -= 2) q.append(s, i, i + 2);
    return new StringValue(q.toString()); }
  public static Value BCat(final Value q) {
    TupleValue t = (TupleValue) q.toTuple(); StringBuilder sb = new StringBuilder();
    for (Value v : t.elems) sb.append(str(v));
    return new StringValue(sb.toString()); }
}
