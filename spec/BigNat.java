import java.math.BigInteger;
import tlc2.value.impl.*;

/** Overrides of module BigNat (see BigNatDefs.tla for the definitions they implement). */
public class BigNat {
  static BigInteger bi(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int n = e.length;
    if (n == 0) return BigInteger.ZERO;
    int nb = (n * 15 + 7) / 8 + 1;
    byte[] out = new byte[nb];
    int pos = nb - 1, acc = 0, bits = 0;
    for (int i = 0; i < n; i++) {
      acc |= ((IntValue) e[i]).val << bits; bits += 15;
      while (bits >= 8) { out[pos--] = (byte) acc; acc >>>= 8; bits -= 8; }
    }
    if (bits > 0) out[pos--] = (byte) acc;
    return new BigInteger(1, out);
  }
  static final IntValue[] IV = new IntValue[32768];
  static { for (int i = 0; i < 32768; i++) IV[i] = IntValue.gen(i); }
  static Value tv(BigInteger b) {
    if (b.signum() < 0) throw new RuntimeException("BigNat: negative result");
    int n = (b.bitLength() + 14) / 15;
    Value[] e = new Value[n];
    byte[] in = b.toByteArray();
    int pos = in.length - 1, acc = 0, bits = 0;
    for (int i = 0; i < n; i++) {
      while (bits < 15 && pos >= 0) { acc |= (in[pos--] & 255) << bits; bits += 8; }
      e[i] = IV[acc & 32767]; acc >>>= 15; bits -= 15; if (bits < 0) bits = 0;
    }
    return new TupleValue(e);
  }
  static int iv(Value v) { return ((IntValue) v).val; }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value BCmp(Value a, Value b) { return IntValue.gen(bi(a).compareTo(bi(b))); }
  public static Value BAdd(Value a, Value b) { return tv(bi(a).add(bi(b))); }
  public static Value BSub(Value a, Value b) { return tv(bi(a).subtract(bi(b))); }
  public static Value BMul(Value a, Value b) { return tv(bi(a).multiply(bi(b))); }
  public static Value BDivMod(Value a, Value b) {
    BigInteger[] r = bi(a).divideAndRemainder(bi(b));
    return new TupleValue(new Value[] {tv(r[0]), tv(r[1])});
  }
  public static Value BDiv(Value a, Value b) { return tv(bi(a).divide(bi(b))); }
  public static Value BMod(Value a, Value b) { return tv(bi(a).mod(bi(b))); }
  public static Value BAddMod(Value a, Value b, Value n) { return tv(bi(a).add(bi(b)).mod(bi(n))); }
  public static Value BSubMod(Value a, Value b, Value n) { return tv(bi(a).subtract(bi(b)).mod(bi(n))); }
  public static Value BMulMod(Value a, Value b, Value n) { return tv(bi(a).multiply(bi(b)).mod(bi(n))); }
  public static Value BPowMod(Value a, Value e, Value n) { return tv(bi(a).modPow(bi(e), bi(n))); }
  public static Value BGcd(Value a, Value b) { return tv(bi(a).gcd(bi(b))); }
  public static Value BInvMod(Value a, Value n) {
    BigInteger m = bi(n);
    try { return m.equals(BigInteger.ONE) ? tv(BigInteger.ZERO) : tv(bi(a).modInverse(m)); }
    catch (ArithmeticException x) { return tv(BigInteger.ZERO); }
  }
  public static Value BBitLen(Value a) { return IntValue.gen(bi(a).bitLength()); }
  public static Value BBit(Value a, Value i) {
    Value[] e = ((TupleValue) a.toTuple()).elems; int k = iv(i);
    if (k / 15 >= e.length) return IntValue.gen(0);
    return IntValue.gen((((IntValue) e[k / 15]).val >> (k % 15)) & 1);
  }
  public static Value BPowInt(Value a, Value k) { return tv(bi(a).pow(iv(k))); }
  public static Value BFromBytes(Value s) {
    Value[] e = ((TupleValue) s.toTuple()).elems; byte[] b = new byte[e.length + 1];
    for (int i = 0; i < e.length; i++) b[i + 1] = (byte) iv(e[i]);
    return tv(new BigInteger(1, b));
  }
  public static Value BToBytes(Value a, Value len) {
    byte[] b = bi(a).toByteArray(); int n = iv(len); Value[] e = new Value[n];
    for (int i = 0; i < n; i++) { int p = b.length - 1 - i; e[n - 1 - i] = IntValue.gen(p >= 0 ? b[p] & 255 : 0); }
    return new TupleValue(e);
  }
  public static Value BDigits(Value a) {
    String s = bi(a).toString(); Value[] e = new Value[s.length()];
    for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(s.charAt(i) - '0');
    return new TupleValue(e);
  }
  public static Value BFromInt(Value k) { return tv(BigInteger.valueOf(iv(k))); }
  public static Value BToInt(Value s) { return IntValue.gen(bi(s).intValueExact()); }
  public static Value BProbPrime(Value n) {
    BigInteger m = bi(n);
    if (m.compareTo(BigInteger.TWO) < 0) return bool(false);
    return bool(m.isProbablePrime(64));
  }
}
