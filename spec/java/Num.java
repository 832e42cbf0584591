import tlc2.value.impl.*;

/**
 * TLC override for module Num: the arithmetic of quantities.
 * A quantity is a TLA+ integer or a decimal string ("0.25", "Infinity", "NaN").
 * On two integers every operator agrees with its TLA+ definition in Num.tla
 * (up to the tolerance in comparisons, which is < 1/2 for integers below 10^4).
 */
public class Num {
  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      if (s.equals("inf")) return Double.POSITIVE_INFINITY;
      if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
      if (s.equals("nan")) return Double.NaN;
      return Double.parseDouble(s);
    }
    throw new RuntimeException("Num: not a quantity: " + v);
  }
  static Value mk(double x) {
    if (x == Math.rint(x) && Math.abs(x) < 1e9) return IntValue.gen((int) x);
    return new StringValue(Double.toString(x));
  }
  static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double tol(double x, double y) {
    double m = Math.max(Math.abs(x), Math.abs(y));
    if (Double.isInfinite(m)) return 0;
    return 1e-5 * (1 + m);
  }
  public static Value Add(Value x, Value y) { return mk(d(x) + d(y)); }
  public static Value Sub(Value x, Value y) { return mk(d(x) - d(y)); }
  public static Value Mul(Value x, Value y) {
    double p = d(x), q = d(y);
    if (p == 0 || q == 0) return IntValue.gen(0);      // 0 * inf = 0: an absent term
    return mk(p * q);
  }
  public static Value Div(Value x, Value y) { return mk(d(x) / d(y)); }
  public static Value NegQ(Value x) { return mk(-d(x)); }
  public static Value AbsQ(Value x) { return mk(Math.abs(d(x))); }
  public static Value Pow(Value x, Value y) { return mk(Math.pow(d(x), d(y))); }
  public static Value Sqrt(Value x) { return mk(Math.sqrt(d(x))); }
  public static Value Sin(Value x) { return mk(Math.sin(d(x))); }
  public static Value Cos(Value x) { return mk(Math.cos(d(x))); }
  public static Value Floor(Value x) { return mk(Math.floor(d(x))); }
  public static Value Ceil(Value x) { return mk(Math.ceil(d(x))); }
  public static Value MinQ(Value x, Value y) { return mk(Math.min(d(x), d(y))); }
  public static Value MaxQ(Value x, Value y) { return mk(Math.max(d(x), d(y))); }
  public static Value Eq(Value x, Value y) {
    double p = d(x), q = d(y);
    if (p == q) return b(true);
    if (Double.isNaN(p) && Double.isNaN(q)) return b(true);
    return b(Math.abs(p - q) <= tol(p, q));
  }
  public static Value Leq(Value x, Value y) {
    double p = d(x), q = d(y);
    return b(p <= q || p - q <= tol(p, q));
  }
  public static Value Less(Value x, Value y) {
    double p = d(x), q = d(y);
    return b(p < q && q - p > tol(p, q));
  }
  public static Value EqTol(Value x, Value y, Value t) {
    double p = d(x), q = d(y);
    return b(p == q || (Double.isNaN(p) && Double.isNaN(q)) || Math.abs(p - q) <= d(t));
  }
  public static Value IsNaN(Value x) { return b(Double.isNaN(d(x))); }
  public static Value IsInf(Value x) { return b(Double.isInfinite(d(x))); }
  public static Value IsInt(Value x) {
    double p = d(x);
    return b(Math.abs(p - Math.rint(p)) <= 1e-5);
  }
  public static Value SumSeq(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    double a = 0;
    for (Value e : t.elems) a += d(e);
    return mk(a);
  }
  public static Value DotSeq(Value s, Value u) {
    TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
    double a = 0;
    for (int i = 0; i < t.elems.length; i++) {
      double p = d(t.elems[i]), q = d(w.elems[i]);
      if (p != 0 && q != 0) a += p * q;
    }
    return mk(a);
  }
  /** sum of f[x] over the domain of the function f */
  public static Value SumFcn(Value f) {
    FcnRcdValue r = (FcnRcdValue) f.toFcnRcd();
    double a = 0;
    for (Value e : r.values) a += d(e);
    return mk(a);
  }
}
