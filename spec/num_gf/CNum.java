import tlc2.value.impl.*;

/** TLC evaluation of the operators of num_gf/CNum.tla: dual numbers over GF(P^2). */
public class CNum {
  static final long P = 2147483647L;
  static long r(long a) { long x = a % P; return x < 0 ? x + P : x; }
  static long[] p(Value v) {
    if (v instanceof IntValue) return new long[]{r(((IntValue) v).val), 0, 0, 0};
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 4) throw new RuntimeException("CNum: not a number: " + v);
    long[] x = new long[4];
    for (int i = 0; i < 4; i++) x[i] = r(((IntValue) t.elems[i]).val);
    return x;
  }
  static Value m(long a, long b, long c, long d) {
    return new TupleValue(new Value[]{IntValue.gen((int) r(a)), IntValue.gen((int) r(b)), IntValue.gen((int) r(c)), IntValue.gen((int) r(d))});
  }
  static Value m(long[] x) { return m(x[0], x[1], x[2], x[3]); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("CNum: not a sequence: " + s);
    return t.elems;
  }
  static long mm(long a, long b) { return r(a * b); }
  static long[] mul(long[] x, long[] y) {
    return new long[]{r(mm(x[0], y[0]) - mm(x[1], y[1])), r(mm(x[0], y[1]) + mm(x[1], y[0])),
      r(mm(x[0], y[2]) - mm(x[1], y[3]) + mm(x[2], y[0]) - mm(x[3], y[1])),
      r(mm(x[0], y[3]) + mm(x[1], y[2]) + mm(x[2], y[1]) + mm(x[3], y[0]))};
  }
  static long pow(long a, long n) {
    long z = 1;
    for (a = r(a); n > 0; n >>= 1, a = mm(a, a)) if ((n & 1) == 1) z = mm(z, a);
    return z;
  }
  static long[] inv(long[] y) {
    long n = r(mm(y[0], y[0]) + mm(y[1], y[1]));
    if (n == 0) throw new RuntimeException("CNum: division by zero");
    n = pow(n, P - 2);
    long[] v = {mm(y[0], n), r(-mm(y[1], n)), 0, 0};
    long[] w = mul(mul(v, v), new long[]{0, 0, y[2], y[3]});
    return new long[]{v[0], v[1], r(-w[2]), r(-w[3])};
  }
  public static Value CN(Value a) { return m(p(a)); }
  public static Value CMk(Value a, Value b) { return m(p(a)[0], p(b)[0], 0, 0); }
  public static Value CDual(Value x, Value d) { long[] a = p(x), b = p(d); return m(a[0], a[1], b[0], b[1]); }
  public static Value CVal(Value x) { long[] a = p(x); return m(a[0], a[1], 0, 0); }
  public static Value CEps(Value x) { long[] a = p(x); return m(a[2], a[3], 0, 0); }
  public static Value CAdd(Value x, Value y) { long[] a = p(x), b = p(y); return m(a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]); }
  public static Value CSub(Value x, Value y) { long[] a = p(x), b = p(y); return m(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]); }
  public static Value CNeg(Value x) { long[] a = p(x); return m(-a[0], -a[1], -a[2], -a[3]); }
  public static Value CMul(Value x, Value y) { return m(mul(p(x), p(y))); }
  public static Value CDiv(Value x, Value y) { return m(mul(p(x), inv(p(y)))); }
  public static Value CConj(Value x) { long[] a = p(x); return m(a[0], -a[1], a[2], -a[3]); }
  public static Value CRe(Value x) { long[] a = p(x); return m(a[0], 0, a[2], 0); }
  public static Value CIm(Value x) { long[] a = p(x); return m(a[1], 0, a[3], 0); }
  public static Value CAbs2(Value x) { long[] a = p(x); return m(mul(a, new long[]{a[0], r(-a[1]), a[2], r(-a[3])})); }
  public static Value CUnit(Value x) { long[] a = p(x); return b(r(mm(a[0], a[0]) + mm(a[1], a[1])) != 0); }
  public static Value CSum(Value s) {
    long[] t = new long[4];
    for (Value v : seq(s)) { long[] x = p(v); for (int i = 0; i < 4; i++) t[i] = r(t[i] + x[i]); }
    return m(t);
  }
  public static Value CDot(Value s, Value u) {
    Value[] a = seq(s), c = seq(u);
    if (a.length != c.length) throw new RuntimeException("CDot: lengths differ");
    long[] t = new long[4];
    for (int k = 0; k < a.length; k++) { long[] x = mul(p(a[k]), p(c[k])); for (int i = 0; i < 4; i++) t[i] = r(t[i] + x[i]); }
    return m(t);
  }
  public static Value CEq(Value x, Value y) { return b(java.util.Arrays.equals(p(x), p(y))); }
}
