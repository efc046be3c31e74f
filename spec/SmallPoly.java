import tlc2.value.impl.*;

/** Override of module SmallPoly's G3Mul (definition: G3MulDef). */
public class SmallPoly {
  public static Value G3Mul(Value a, Value b, Value mv, Value tv) {
    Value[] x = ((TupleValue) a.toTuple()).elems, y = ((TupleValue) b.toTuple()).elems;
    int m = ((IntValue) mv).val, t = ((IntValue) tv).val;
    int[] c = new int[2 * m - 1];
    for (int i = 0; i < m; i++) {
      int xi = ((IntValue) x[i]).val;
      if (xi != 0) for (int j = 0; j < m; j++) c[i + j] += xi * ((IntValue) y[j]).val;
    }
    for (int k = 2 * m - 2; k >= m; k--) { int v = c[k] % 3; c[k - m] += v; c[k - m + t] += 2 * v; }
    Value[] r = new Value[m];
    for (int i = 0; i < m; i++) r[i] = IntValue.gen(c[i] % 3);
    return new TupleValue(r);
  }
}
