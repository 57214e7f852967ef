import tlc2.value.impl.*;
/** TLC override of Keccak!Keccak. */
public class Keccak {
  static final long[] RC = new long[24];
  static final int[] R = new int[25];
  static {
    int l = 1;
    for (int i = 0; i < 24; i++) {
      long c = 0;
      for (int j = 0; j < 7; j++) {
        if ((l & 1) != 0) c ^= 1L << ((1 << j) - 1);
        l = (l << 1) ^ ((l >> 7) * 0x171);
      }
      RC[i] = c; }
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      R[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
      int ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
  }
  static void f(long[] s) {
    long[] b = new long[25], c = new long[5];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 25; y += 5) s[x + y] ^= d; }
      for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++)
        b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(s[x + 5 * y], R[x + 5 * y]);
      for (int y = 0; y < 25; y += 5) for (int x = 0; x < 5; x++)
        s[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
      s[0] ^= RC[r]; } }
  static byte[] hash(byte[] in) {
    int n = in.length, blocks = n / 136 + 1;
    byte[] m = new byte[blocks * 136];
    System.arraycopy(in, 0, m, 0, n);
    m[n] ^= 1; m[m.length - 1] ^= (byte) 0x80;
    long[] s = new long[25];
    for (int k = 0; k < blocks; k++) {
      for (int i = 0; i < 136; i++) s[i / 8] ^= (m[k * 136 + i] & 0xffL) << (8 * (i % 8));
      f(s); }
    byte[] o = new byte[32];
    for (int i = 0; i < 32; i++) o[i] = (byte) (s[i / 8] >>> (8 * (i % 8)));
    return o; }
  static final String HX = "0123456789abcdef";
  public static Value Keccak(final Value b) {
    String s = ((StringValue) b).getVal().toString();
    byte[] in = new byte[s.length() / 2];
    for (int i = 0; i < in.length; i++)
      in[i] = (byte) (Character.digit(s.charAt(2 * i), 16) * 16 + Character.digit(s.charAt(2 * i + 1), 16));
    StringBuilder q = new StringBuilder(64);
    for (byte x : hash(in)) q.append(HX.charAt((x >> 4) & 15)).append(HX.charAt(x & 15));
    return new StringValue(q.toString()); }
}
