import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** TLC override of the operators of CNum.tla by IEEE double arithmetic.
 *  A number is an integer, a string "re" or "re im" (from JSON), or in normal
 *  form the tuple of the four 32-bit halves of the two doubles. */
public class CNum {
  static double pd(String s) {
    switch (s) {
      case "nan": case "NaN": case "-nan": return Double.NaN;
      case "inf": case "Infinity": return Double.POSITIVE_INFINITY;
      case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
      default: return Double.parseDouble(s);
    }
  }
  /** parsed strings by their unique number */
  static volatile double[][] cache = new double[1 << 16][];
  static double[] parse(String s) {
    int k = s.indexOf(' ');
    if (k < 0) return new double[]{pd(s), 0};
    return new double[]{pd(s.substring(0, k)), pd(s.substring(k + 1))};
  }
  static double[] p(Value v) {
    if (v instanceof IntValue) return new double[]{((IntValue) v).val, 0};
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      int k = u.getTok();
      double[][] c = cache;
      if (k < c.length && c[k] != null) return c[k];
      double[] d = parse(u.toString());
      synchronized (CNum.class) {
        if (k >= cache.length) cache = java.util.Arrays.copyOf(cache, 2 * k + 1024);
        cache[k] = d;
      }
      return d;
    }
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 4) throw new RuntimeException("CNum: not a number: " + v);
    long a = ((long) ((IntValue) t.elems[0]).val << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL);
    long b = ((long) ((IntValue) t.elems[2]).val << 32) | (((IntValue) t.elems[3]).val & 0xffffffffL);
    return new double[]{Double.longBitsToDouble(a), Double.longBitsToDouble(b)};
  }
  static Value m(double re, double im) {
    long a = Double.doubleToLongBits(re), b = Double.doubleToLongBits(im);
    return new TupleValue(new Value[]{IntValue.gen((int) (a >> 32)), IntValue.gen((int) a),
                                      IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("CNum: not a sequence: " + s);
    return t.elems;
  }
  public static Value CMk(Value a, Value b) { return m(p(a)[0], p(b)[0]); }
  public static Value CN(Value a) { double[] x = p(a); return m(x[0], x[1]); }
  public static Value CAdd(Value a, Value b) { double[] x = p(a), y = p(b); return m(x[0] + y[0], x[1] + y[1]); }
  public static Value CSub(Value a, Value b) { double[] x = p(a), y = p(b); return m(x[0] - y[0], x[1] - y[1]); }
  static double[] mul(double[] x, double[] y) {
    if (x[1] == 0) return new double[]{x[0] * y[0], x[0] * y[1]};
    if (y[1] == 0) return new double[]{x[0] * y[0], x[1] * y[0]};
    return new double[]{x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]};
  }
  public static Value CMul(Value a, Value b) { double[] z = mul(p(a), p(b)); return m(z[0], z[1]); }
  public static Value CDiv(Value a, Value b) {
    double[] x = p(a), y = p(b);
    if (y[1] == 0) return m(x[0] / y[0], x[1] / y[0]);
    double s = Math.max(Math.abs(y[0]), Math.abs(y[1]));
    double c = y[0] / s, d = y[1] / s, q = (c * c + d * d) * s;
    return m((x[0] * c + x[1] * d) / q, (x[1] * c - x[0] * d) / q);
  }
  public static Value CNeg(Value a) { double[] x = p(a); return m(-x[0], -x[1]); }
  public static Value CConj(Value a) { double[] x = p(a); return m(x[0], -x[1]); }
  public static Value CRe(Value a) { return m(p(a)[0], 0); }
  public static Value CIm(Value a) { return m(p(a)[1], 0); }
  public static Value CAbs2(Value a) { double[] x = p(a); return m(x[0] * x[0] + x[1] * x[1], 0); }
  public static Value CSum(Value s) {
    double re = 0, im = 0;
    for (Value v : seq(s)) { double[] x = p(v); re += x[0]; im += x[1]; }
    return m(re, im);
  }
  public static Value CDot(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) throw new RuntimeException("CDot: lengths differ");
    double re = 0, im = 0;
    for (int i = 0; i < a.length; i++) { double[] z = mul(p(a[i]), p(b[i])); re += z[0]; im += z[1]; }
    return m(re, im);
  }
  public static Value CEq(Value a, Value b) { double[] x = p(a), y = p(b); return b(x[0] == y[0] && x[1] == y[1]); }
}
