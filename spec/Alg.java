import java.math.BigInteger;
import java.util.IdentityHashMap;
import tlc2.value.impl.*;

/** Overrides of RMul, RPow, RInv and EScale of module Alg (definitions: RMulDef, RPowDef, RInvDef, EScaleDef;
 *  AlgCheck has TLC compare each with its definition). */
public class Alg {
  static abstract class S {
    abstract Object in(Value v); abstract Value out(Object a);
    abstract Object zero(); abstract Object one(); abstract Object add(Object a, Object b); abstract Object neg(Object a); abstract Object mul(Object a, Object b);
    abstract boolean isZero(Object a); abstract BigInteger card();
    Object sub(Object a, Object b) { return add(a, neg(b)); }
    boolean eq(Object a, Object b) { return isZero(sub(a, b)); }
    Object inv(Object a) { return pow(a, card().subtract(BigInteger.TWO)); }
    Object pow(Object a, BigInteger e) {
      Object r = one();
      for (int i = e.bitLength() - 1; i >= 0; i--) { r = mul(r, r); if (e.testBit(i)) r = mul(r, a); }
      return r;
    }
    Object num(int k) { Object r = zero(), o = one(); for (int i = 0; i < k; i++) r = add(r, o); return r; }
  }
  static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
  static final class Zn extends S {
    final BigInteger n; Zn(BigInteger n) { this.n = n; }
    Object in(Value v) { return BigNat.bi(v); } Value out(Object a) { return BigNat.tv((BigInteger) a); }
    Object zero() { return BigInteger.ZERO; } Object one() { return BigInteger.ONE.mod(n); }
    Object add(Object a, Object b) { BigInteger r = ((BigInteger) a).add((BigInteger) b); return r.compareTo(n) >= 0 ? r.mod(n) : r; }
    Object neg(Object a) { return ((BigInteger) a).negate().mod(n); }
    Object mul(Object a, Object b) { return ((BigInteger) a).multiply((BigInteger) b).mod(n); }
    boolean isZero(Object a) { return ((BigInteger) a).signum() == 0; } BigInteger card() { return n; }
    Object pow(Object a, BigInteger e) { return ((BigInteger) a).modPow(e, n); }
    Object inv(Object a) { try { return ((BigInteger) a).modInverse(n); } catch (ArithmeticException x) { return BigInteger.ZERO; } }
  }
  static final class Ext extends S {       /* B[x] modulo x^n = red */
    final S b; final int n; final Object[] red; final boolean quad;
    Ext(S b, int n, Object[] red, boolean quad) { this.b = b; this.n = n; this.red = red; this.quad = quad; }
    Object in(Value v) { Value[] e = el(v); Object[] r = new Object[n]; for (int i = 0; i < n; i++) r[i] = b.in(e[i]); return r; }
    Value out(Object a) { Object[] x = (Object[]) a; Value[] e = new Value[n]; for (int i = 0; i < n; i++) e[i] = b.out(x[i]); return new TupleValue(e); }
    Object zero() { Object[] r = new Object[n]; for (int i = 0; i < n; i++) r[i] = b.zero(); return r; }
    Object one() { Object[] r = (Object[]) zero(); r[0] = b.one(); return r; }
    Object add(Object a, Object c) { Object[] x = (Object[]) a, y = (Object[]) c, r = new Object[n]; for (int i = 0; i < n; i++) r[i] = b.add(x[i], y[i]); return r; }
    Object neg(Object a) { Object[] x = (Object[]) a, r = new Object[n]; for (int i = 0; i < n; i++) r[i] = b.neg(x[i]); return r; }
    Object mul(Object a, Object c) {
      Object[] x = (Object[]) a, y = (Object[]) c, r = new Object[2 * n - 1];
      for (int i = 0; i < r.length; i++) r[i] = b.zero();
      for (int i = 0; i < n; i++) if (!b.isZero(x[i])) for (int j = 0; j < n; j++) r[i + j] = b.add(r[i + j], b.mul(x[i], y[j]));
      for (int k = 2 * n - 2; k >= n; k--) if (!b.isZero(r[k])) for (int i = 0; i < n; i++) if (!b.isZero(red[i])) r[k - n + i] = b.add(r[k - n + i], b.mul(r[k], red[i]));
      return java.util.Arrays.copyOf(r, n);
    }
    boolean isZero(Object a) { for (Object o : (Object[]) a) if (!b.isZero(o)) return false; return true; }
    BigInteger card() { return b.card().pow(n); }
    Object inv(Object a) {
      if (!quad) return super.inv(a);
      Object[] x = (Object[]) a; Object d = b.inv(b.sub(b.mul(x[0], x[0]), b.mul(red[0], b.mul(x[1], x[1]))));
      return new Object[] {b.mul(x[0], d), b.mul(b.neg(x[1]), d)};
    }
  }
  static final class G3 extends S {
    final int m, t; G3(int m, int t) { this.m = m; this.t = t; }
    Object in(Value v) { Value[] e = el(v); int[] r = new int[m]; for (int i = 0; i < m; i++) r[i] = ((IntValue) e[i]).val; return r; }
    Value out(Object a) { Value[] e = new Value[m]; for (int i = 0; i < m; i++) e[i] = IntValue.gen(((int[]) a)[i]); return new TupleValue(e); }
    Object zero() { return new int[m]; } Object one() { int[] r = new int[m]; r[0] = 1; return r; }
    Object add(Object a, Object b) { int[] x = (int[]) a, y = (int[]) b, r = new int[m]; for (int i = 0; i < m; i++) r[i] = (x[i] + y[i]) % 3; return r; }
    Object neg(Object a) { int[] x = (int[]) a, r = new int[m]; for (int i = 0; i < m; i++) r[i] = (3 - x[i]) % 3; return r; }
    Object mul(Object a, Object b) {
      int[] x = (int[]) a, y = (int[]) b, c = new int[2 * m - 1];
      for (int i = 0; i < m; i++) if (x[i] != 0) for (int j = 0; j < m; j++) c[i + j] += x[i] * y[j];
      for (int k = 2 * m - 2; k >= m; k--) { int v = c[k] % 3; c[k - m] += v; c[k - m + t] += 2 * v; }
      int[] r = new int[m]; for (int i = 0; i < m; i++) r[i] = c[i] % 3; return r;
    }
    boolean isZero(Object a) { for (int v : (int[]) a) if (v != 0) return false; return true; }
    BigInteger card() { return BigInteger.valueOf(3).pow(m); }
  }
  static final IdentityHashMap<Value, S> cache = new IdentityHashMap<>();
  static Value fld(RecordValue r, String k) { return r.apply(new StringValue(k), 0) instanceof Value ? (Value) r.apply(new StringValue(k), 0) : null; }
  static S struct(Value v) {
    synchronized (cache) {
      S s = cache.get(v);
      if (s == null) { if (cache.size() > 5000) cache.clear(); s = parse(v); cache.put(v, s); }
      return s;
    }
  }
  static S parse(Value v) {
    RecordValue r = (RecordValue) v.toRcd();
    String t = ((StringValue) fld(r, "t")).val.toString();
    if (t.equals("zn")) return new Zn(BigNat.bi(fld(r, "n")));
    if (t.equals("g3")) return new G3(((IntValue) fld(r, "m")).val, ((IntValue) fld(r, "tt")).val);
    S b = t.equals("quad") || t.equals("pm") || t.equals("g33") ? struct(fld(r, "b")) : null;
    if (t.equals("quad")) return new Ext(b, 2, new Object[] {b.in(fld(r, "nqr")), b.zero()}, true);
    if (t.equals("g33")) return new Ext(b, 3, new Object[] {b.one(), b.one(), b.zero()}, false);
    if (t.equals("pm")) { int n = ((IntValue) fld(r, "n")).val; Value[] e = el(fld(r, "red")); Object[] red = new Object[n]; for (int i = 0; i < n; i++) red[i] = b.in(e[i]); return new Ext(b, n, red, false); }
    return null;
  }
  static String type(Value v) { return ((StringValue) fld((RecordValue) v.toRcd(), "t")).val.toString(); }

  public static Value RFastMul(Value s, Value a, Value b) { S k = struct(s); return k.out(k.mul(k.in(a), k.in(b))); }
  public static Value RFastPow(Value s, Value a, Value e) { S k = struct(s); return k.out(k.pow(k.in(a), BigNat.bi(e))); }
  public static Value RFastInv(Value s, Value a) { S k = struct(s); return k.out(k.inv(k.in(a))); }
  /** e P on y^2 = x^3 + a4 x + a6, affine in and out; the empty tuple is the identity. */
  public static Value EScale(Value c, Value ev, Value pv) {
    RecordValue r = (RecordValue) c.toRcd(); S k = struct(fld(r, "b"));
    Value[] p = el(pv); Value none = new TupleValue(new Value[0]);
    if (p.length == 0) return none;
    Object a4 = k.in(fld(r, "a4")), x = k.in(p[0]), y = k.in(p[1]), X = k.one(), Y = k.one(), Z = k.zero();
    Object two = k.num(2), three = k.num(3), four = k.num(4), eight = k.num(8);
    BigInteger e = BigNat.bi(ev);
    for (int i = e.bitLength() - 1; i >= 0; i--) {
      for (int step = 0; step < (e.testBit(i) ? 2 : 1); step++) {
        if (step == 1) {
          if (k.isZero(Z)) { X = x; Y = y; Z = k.one(); continue; }
          Object zz = k.mul(Z, Z), h = k.sub(k.mul(x, zz), X), rr = k.sub(k.mul(y, k.mul(zz, Z)), Y);
          if (!k.isZero(h)) {
            Object hh = k.mul(h, h), hhh = k.mul(hh, h), v = k.mul(X, hh);
            Object x3 = k.sub(k.sub(k.mul(rr, rr), hhh), k.add(v, v));
            Y = k.sub(k.mul(rr, k.sub(v, x3)), k.mul(Y, hhh)); X = x3; Z = k.mul(Z, h); continue;
          }
          if (!k.isZero(rr)) { X = k.one(); Y = k.one(); Z = k.zero(); continue; }
        }
        if (k.isZero(Z) || k.isZero(Y)) { X = k.one(); Y = k.one(); Z = k.zero(); continue; }
        Object yy = k.mul(Y, Y), zz = k.mul(Z, Z), s = k.mul(four, k.mul(X, yy)), m = k.add(k.mul(three, k.mul(X, X)), k.mul(a4, k.mul(zz, zz)));
        Object x3 = k.sub(k.mul(m, m), k.add(s, s)), y3 = k.sub(k.mul(m, k.sub(s, x3)), k.mul(eight, k.mul(yy, yy)));
        Z = k.mul(two, k.mul(Y, Z)); X = x3; Y = y3;
      }
    }
    if (k.isZero(Z)) return none;
    Object zi = k.inv(Z), zi2 = k.mul(zi, zi);
    return new TupleValue(new Value[] {k.out(k.mul(X, zi2)), k.out(k.mul(Y, k.mul(zi2, zi)))});
  }
}
