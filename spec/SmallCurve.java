import tlc2.value.impl.*;

/** Overrides of module SmallCurve (see its definitions). */
public class SmallCurve {
  static int iv(Value v) { return ((IntValue) v).val; }
  public static Value RootSet(Value cv, Value pv) {
    Value[] c = ((TupleValue) cv.toTuple()).elems; int p = iv(pv); int[] k = new int[c.length];
    for (int i = 0; i < k.length; i++) k[i] = iv(c[i]);
    ValueVec r = new ValueVec();
    for (int x = 0; x < p; x++) { long a = 0; for (int i = k.length - 1; i >= 0; i--) a = (a * x + k[i]) % p; if (a == 0) r.addElement(IntValue.gen(x)); }
    return new SetEnumValue(r, true);
  }
  public static Value CharSum(Value pv, Value av, Value bv) {
    int p = iv(pv); long a = iv(av), b = iv(bv), s = 0; boolean[] q = new boolean[p];
    for (long x = 1; x < p; x++) q[(int) (x * x % p)] = true;
    for (long x = 0; x < p; x++) { int v = (int) ((x * x % p * x + a * x + b) % p); if (v != 0) s += q[v] ? 1 : -1; }
    return IntValue.gen((int) s);
  }
}
