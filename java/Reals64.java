import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/**
 * TLC carrier for the abstract reals used by the specifications.
 *
 * The specifications are written over the operators of module Reals64 (RAdd, RMul,
 * RSqrt, RLe, ...).  TLC itself only has 32-bit integers, so this class (a TLC module
 * override, the same mechanism CommunityModules uses) evaluates those operators on
 * IEEE-754 binary64 values.  A real is represented inside TLC either by an ordinary
 * integer n or by the pair << hi, lo >> of the two 32-bit halves of the binary64 word.
 */
public class Reals64 {
  static double d(Value v0) {
    Value v = v0;
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (!(v instanceof TupleValue)) {
      Value t = (Value) v.toTuple();
      if (t == null) throw new RuntimeException("Reals64: not a real: " + v);
      v = t;
    }
    TupleValue t = (TupleValue) v;
    if (t.elems.length != 2) throw new RuntimeException("Reals64: not a real: " + v);
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }

  static Value r(double x) {
    if (x == 0.0) x = 0.0; // one representation of zero
    if (x == Math.rint(x) && Math.abs(x) < 1e9) return IntValue.gen((int) x);
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }

  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Reals64: not a sequence: " + v);
    return t.elems;
  }

  public static Value RCanon(Value a) { return r(d(a)); }
  public static Value RAdd(Value a, Value b) { return r(d(a) + d(b)); }
  public static Value RSub(Value a, Value b) { return r(d(a) - d(b)); }
  public static Value RMul(Value a, Value b) { return r(d(a) * d(b)); }
  public static Value RDiv(Value a, Value b) { return r(d(a) / d(b)); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RAtan(Value a) { return r(Math.atan(d(a))); }
  public static Value RAtan2(Value a, Value b) { return r(Math.atan2(d(a), d(b))); }
  public static Value RAcos(Value a) { return r(Math.acos(d(a))); }
  public static Value RPow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
  public static Value RLt(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value RLe(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value REq(Value a, Value b) { return b(d(a) == d(b)); }
  public static Value RMax(Value a, Value b) { return r(Math.max(d(a), d(b))); }
  public static Value RMin(Value a, Value b) { return r(Math.min(d(a), d(b))); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RIsNaN(Value a) { return b(Double.isNaN(d(a))); }
  public static Value RFloor(Value a) { return IntValue.gen(toInt(Math.floor(d(a)))); }
  public static Value RCeil(Value a) { return IntValue.gen(toInt(Math.ceil(d(a)))); }
  public static Value RRoundHalfEven(Value a) { return IntValue.gen(toInt(Math.rint(d(a)))); }
  static int toInt(double x) {
    if (Double.isNaN(x)) return Integer.MIN_VALUE + 1;
    if (x > 2.0e9) return 2000000000;
    if (x < -2.0e9) return -2000000000;
    return (int) x;
  }
  public static Value RSum(Value s) { double t = 0; for (Value x : seq(s)) t += d(x); return r(t); }

  /** |a - b| <= tol * scale ; false when either is not finite. */
  public static Value RClose(Value a, Value b, Value tol) {
    double x = d(a), y = d(b), t = d(tol);
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
    return b(Math.abs(x - y) <= t);
  }

  // ---- 3-vectors: evaluated natively for speed; Vec3.tla gives the definitions ----
  static double[] v3(Value v) { Value[] e = seq(v); return new double[] {d(e[0]), d(e[1]), d(e[2])}; }
  static Value v(double x, double y, double z) { return new TupleValue(new Value[] {r(x), r(y), r(z)}); }
  public static Value VAdd(Value a, Value b) { double[] p = v3(a), q = v3(b); return v(p[0] + q[0], p[1] + q[1], p[2] + q[2]); }
  public static Value VSub(Value a, Value b) { double[] p = v3(a), q = v3(b); return v(p[0] - q[0], p[1] - q[1], p[2] - q[2]); }
  public static Value VScale(Value k, Value a) { double s = d(k); double[] p = v3(a); return v(s * p[0], s * p[1], s * p[2]); }
  public static Value VDot(Value a, Value b) { double[] p = v3(a), q = v3(b); return r(p[0] * q[0] + p[1] * q[1] + p[2] * q[2]); }
  public static Value VCross(Value a, Value b) {
    double[] p = v3(a), q = v3(b);
    return v(p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]);
  }
  public static Value VNorm(Value a) { double[] p = v3(a); return r(Math.sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])); }
  public static Value VClose(Value a, Value b, Value tol) {
    double[] p = v3(a), q = v3(b); double t = d(tol);
    for (int i = 0; i < 3; i++) {
      double x = p[i] - q[i];
      if (!(Math.abs(x) <= t)) return b(false);
    }
    return b(true);
  }
  public static Value VSum(Value s) {
    double x = 0, y = 0, z = 0;
    for (Value e : seq(s)) { double[] p = v3(e); x += p[0]; y += p[1]; z += p[2]; }
    return v(x, y, z);
  }
  /** Decimal text of a real, for diagnostics only. */
  public static Value RShow(Value a) { return new StringValue(Double.toString(d(a))); }
}
