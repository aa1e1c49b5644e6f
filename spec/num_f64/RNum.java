import tlc2.value.impl.*;

/** TLC override of RNum.tla: real analysis on doubles and tolerant comparison. */
public class RNum {
  static double[] p(Value v) { return CNum.p(v); }
  static double r(Value v) { return CNum.p(v)[0]; }
  static double abs(double[] x) { return Math.hypot(x[0], x[1]); }
  static Value m(double x) { return CNum.m(x, 0); }
  static Value b(boolean x) { return CNum.b(x); }
  public static Value RAbs(Value a) { return m(abs(p(a))); }
  public static Value RSqrt(Value a) { return m(Math.sqrt(r(a))); }
  public static Value RTanh(Value a) { return m(Math.tanh(r(a))); }
  public static Value RExp(Value a) { return m(Math.exp(r(a))); }
  public static Value RLog(Value a) { return m(Math.log(r(a))); }
  public static Value RCos(Value a) { return m(Math.cos(r(a))); }
  public static Value RSin(Value a) { return m(Math.sin(r(a))); }
  public static Value RPow(Value a, Value b) { return m(Math.pow(r(a), r(b))); }
  public static Value RPi() { return m(Math.PI); }
  public static Value RTrunc(Value a) { double x = r(a); return IntValue.gen((int) (x < 0 ? Math.ceil(x) : Math.floor(x))); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(r(a))); }
  public static Value RLe(Value a, Value b) { return b(r(a) <= r(b)); }
  public static Value RLt(Value a, Value b) { return b(r(a) < r(b)); }
  public static Value RFinite(Value a) { double[] x = p(a); return b(Double.isFinite(x[0]) && Double.isFinite(x[1])); }
  public static Value RMaxAbs(Value s) {
    double q = 0;
    for (Value v : CNum.seq(s)) { double x = abs(p(v)); if (!(x <= q)) q = x; if (Double.isNaN(q)) return m(q); }
    return m(q);
  }
  public static Value RMax(Value s) {
    double q = Double.NEGATIVE_INFINITY;
    for (Value v : CNum.seq(s)) q = Math.max(q, r(v));
    return m(q);
  }
  public static Value RMin(Value s) {
    double q = Double.POSITIVE_INFINITY;
    for (Value v : CNum.seq(s)) q = Math.min(q, r(v));
    return m(q);
  }
  public static Value RNorm(Value s) {
    double q = 0;
    for (Value v : CNum.seq(s)) { double[] x = p(v); q += x[0] * x[0] + x[1] * x[1]; }
    return m(Math.sqrt(q));
  }
  /** |a-b| <= atol + rtol*max(|a|,|b|); false if anything is not finite */
  public static Value RClose(Value a, Value b, Value rtol, Value atol) {
    double[] x = p(a), y = p(b);
    double d = Math.hypot(x[0] - y[0], x[1] - y[1]);
    return b(d <= r(atol) + r(rtol) * Math.max(abs(x), abs(y)) && Double.isFinite(d));
  }
  public static Value RShow(Value a) { double[] x = p(a); return new StringValue(x[1] == 0 ? "" + x[0] : x[0] + " " + x[1]); }
}
