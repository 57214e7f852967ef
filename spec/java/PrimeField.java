import java.math.BigInteger;
import tlc2.value.impl.*;
/** TLC overrides of module PrimeField. */
public class PrimeField {
  static BigInteger N(Value v) { return Nat16.N(v); }
  static Value S(BigInteger b) { return Nat16.S(b); }
  static BigInteger[] Q(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    BigInteger[] r = new BigInteger[e.length];
    for (int i = 0; i < r.length; i++) r[i] = N(e[i]);
    return r; }
  static Value T(BigInteger[] q) {
    Value[] e = new Value[q.length];
    for (int i = 0; i < e.length; i++) e[i] = S(q[i]);
    return new TupleValue(e); }
  public static Value FRed(final Value p, final Value a) { return S(N(a).mod(N(p))); }
  public static Value FAdd(final Value p, final Value a, final Value b) { return S(N(a).add(N(b)).mod(N(p))); }
  public static Value FSub(final Value p, final Value a, final Value b) { return S(N(a).subtract(N(b)).mod(N(p))); }
  public static Value FNeg(final Value p, final Value a) { return S(N(a).negate().mod(N(p))); }
  public static Value FMul(final Value p, final Value a, final Value b) { return S(N(a).multiply(N(b)).mod(N(p))); }
  public static Value FPowN(final Value p, final Value a, final Value n) { return S(N(a).modPow(N(n), N(p))); }
  public static Value FPow(final Value p, final Value a, final Value n) {
    return S(N(a).modPow(BigInteger.valueOf(((IntValue) n).val), N(p))); }
  public static Value FInv(final Value p, final Value a) {
    BigInteger m = N(p), x = N(a).mod(m);
    return S(x.signum() == 0 ? x : x.modInverse(m)); }
  public static Value FInt(final Value p, final Value n) { return S(BigInteger.valueOf(((IntValue) n).val).mod(N(p))); }
  public static Value FSum(final Value p, final Value q) {
    BigInteger r = BigInteger.ZERO; for (BigInteger x : Q(q)) r = r.add(x); return S(r.mod(N(p))); }
  public static Value FProd(final Value p, final Value q) {
    BigInteger m = N(p), r = BigInteger.ONE; for (BigInteger x : Q(q)) r = r.multiply(x).mod(m); return S(r); }
  static BigInteger horner(BigInteger m, BigInteger[] c, BigInteger x) {
    BigInteger r = BigInteger.ZERO;
    for (int i = c.length - 1; i >= 0; i--) r = r.multiply(x).add(c[i]).mod(m);
    return r; }
  public static Value PEval(final Value p, final Value c, final Value x) { return S(horner(N(p), Q(c), N(x))); }
  /** c zero-extended to n (a power of two, w of order n): radix-2 transform; otherwise Horner. */
  static BigInteger[] ev(BigInteger m, BigInteger[] c, BigInteger s, BigInteger w, int n) {
    boolean pow2 = n > 0 && (n & (n - 1)) == 0 && c.length <= n && w.modPow(BigInteger.valueOf(n), m).equals(BigInteger.ONE);
    if (!pow2) {
      BigInteger[] r = new BigInteger[n]; BigInteger x = s;
      for (int i = 0; i < n; i++) { r[i] = horner(m, c, x); x = x.multiply(w).mod(m); }
      return r; }
    BigInteger[] a = new BigInteger[n]; BigInteger k = BigInteger.ONE;
    for (int i = 0; i < n; i++) {
      a[i] = i < c.length ? c[i].multiply(k).mod(m) : BigInteger.ZERO;
      k = k.multiply(s).mod(m); }
    return fft(m, a, w); }
  static BigInteger[] fft(BigInteger m, BigInteger[] a, BigInteger w) {
    int n = a.length; if (n == 1) return a;
    BigInteger[] e = new BigInteger[n / 2], o = new BigInteger[n / 2];
    for (int i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
    BigInteger w2 = w.multiply(w).mod(m);
    e = fft(m, e, w2); o = fft(m, o, w2);
    BigInteger[] r = new BigInteger[n]; BigInteger x = BigInteger.ONE;
    for (int i = 0; i < n / 2; i++) {
      BigInteger t = x.multiply(o[i]).mod(m);
      r[i] = e[i].add(t).mod(m);
      r[i + n / 2] = e[i].add(x.multiply(w.modPow(BigInteger.valueOf(n / 2), m)).mod(m).multiply(o[i])).mod(m);
      x = x.multiply(w).mod(m); }
    return r; }
  public static Value PEvals(final Value p, final Value c, final Value s, final Value w, final Value n) {
    return T(ev(N(p), Q(c), N(s), N(w), ((IntValue) n).val)); }
  public static Value PInterp(final Value p, final Value v, final Value s, final Value w) {
    BigInteger m = N(p); BigInteger[] q = Q(v); int n = q.length;
    BigInteger[] r = ev(m, q, BigInteger.ONE, N(w).modInverse(m), n);
    BigInteger k = BigInteger.valueOf(n).modInverse(m), si = N(s).modInverse(m);
    for (int i = 0; i < n; i++) { r[i] = r[i].multiply(k).mod(m); k = k.multiply(si).mod(m); }
    return T(r); }
}
