// TLC module override for Flt.tla: IEEE-754 binary64 primitives.
// A double is the TLA+ pair <<hi, lo>> of the signed 32-bit halves of its bits.
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class Flt {
  static Value mk(double d) {
    long b = Double.doubleToLongBits(d);
    return new TupleValue(new Value[]{IntValue.gen((int)(b >>> 32)), IntValue.gen((int)b)});
  }
  static double un(Value v) {
    if (v instanceof IntValue) return ((IntValue)v).val;
    Value[] e = ((TupleValue)v.toTuple()).elems;
    if (e.length != 2) throw new RuntimeException("Flt: not a double: " + v);
    return Double.longBitsToDouble(((long)((IntValue)e[0]).val << 32) | (((IntValue)e[1]).val & 0xffffffffL));
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static int clampi(double d) {
    if (Double.isNaN(d)) return Integer.MIN_VALUE;
    return d > 2e9 ? 2000000000 : d < -2e9 ? -2000000000 : (int)d;
  }
  public static Value F(Value a) { return mk(un(a)); }
  public static Value FLit(StringValue s) { return mk(Double.parseDouble(s.val.toString())); }
  public static Value FRat(Value a, Value c) { return mk(un(a) / un(c)); }
  public static Value FAdd(Value a, Value c) { return mk(un(a) + un(c)); }
  public static Value FSub(Value a, Value c) { return mk(un(a) - un(c)); }
  public static Value FMul(Value a, Value c) { return mk(un(a) * un(c)); }
  public static Value FDiv(Value a, Value c) { return mk(un(a) / un(c)); }
  public static Value FNeg(Value a) { return mk(-un(a)); }
  public static Value FAbs(Value a) { return mk(Math.abs(un(a))); }
  public static Value FSqrt(Value a) { return mk(Math.sqrt(un(a))); }
  public static Value FExp(Value a) { return mk(Math.exp(un(a))); }
  public static Value FLn(Value a) { return mk(Math.log(un(a))); }
  public static Value FSin(Value a) { return mk(Math.sin(un(a))); }
  public static Value FCos(Value a) { return mk(Math.cos(un(a))); }
  public static Value FAsin(Value a) { return mk(Math.asin(un(a))); }
  public static Value FPow(Value a, Value c) { return mk(Math.pow(un(a), un(c))); }
  public static Value FMin(Value a, Value c) { return mk(Math.min(un(a), un(c))); }
  public static Value FMax(Value a, Value c) { return mk(Math.max(un(a), un(c))); }
  public static Value FFloor(Value a) { return IntValue.gen(clampi(Math.floor(un(a)))); }
  public static Value FRint(Value a) { return IntValue.gen(clampi(Math.rint(un(a)))); }
  public static Value FLt(Value a, Value c) { return b(un(a) < un(c)); }
  public static Value FLe(Value a, Value c) { return b(un(a) <= un(c)); }
  public static Value FEq(Value a, Value c) { return b(un(a) == un(c)); }
  public static Value FIsNaN(Value a) { return b(Double.isNaN(un(a))); }
  public static Value FFinite(Value a) { double d = un(a); return b(!Double.isNaN(d) && !Double.isInfinite(d)); }
  // |a-c| <= atol + rtol*|c|; false when either is NaN; infinities only close to themselves
  public static Value FNear(Value a, Value c, Value rtol, Value atol) {
    double x = un(a), y = un(c);
    if (Double.isNaN(x) || Double.isNaN(y)) return b(false);
    if (x == y) return b(true);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return b(false);
    return b(Math.abs(x - y) <= un(atol) + un(rtol) * Math.abs(y));
  }
  static Value[] seq(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Flt: not a sequence: " + s);
    return ((TupleValue)t).elems;
  }
  // sum of a sequence of doubles/ints
  public static Value FSum(Value s) {
    double r = 0; for (Value v : seq(s)) r += un(v); return mk(r);
  }
  public static Value FDot(Value s, Value t) {
    Value[] a = seq(s), c = seq(t); double r = 0;
    if (a.length != c.length) throw new RuntimeException("FDot: lengths differ");
    for (int i = 0; i < a.length; i++) r += un(a[i]) * un(c[i]);
    return mk(r);
  }
  public static Value FShow(Value a) { return new StringValue(Double.toString(un(a))); }
}
