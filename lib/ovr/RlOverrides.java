package ovr;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** IEEE-double meaning of the operators of module Rl. */
public class RlOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] {RlOverrides.class}; }

  static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "nan": case "-nan": return Double.NaN;
        case "inf": return Double.POSITIVE_INFINITY;
        case "-inf": return Double.NEGATIVE_INFINITY;
        default: return Double.parseDouble(s);
      }
    }
    throw new RuntimeException("Rl: not a real: " + v);
  }
  static Value s(double x) { return new StringValue(Double.toString(x == 0.0 ? 0.0 : x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  @TLAPlusOperator(identifier = "RAdd", module = "Rl", warn = false)
  public static Value RAdd(Value x, Value y) { return s(d(x) + d(y)); }
  @TLAPlusOperator(identifier = "RSub", module = "Rl", warn = false)
  public static Value RSub(Value x, Value y) { return s(d(x) - d(y)); }
  @TLAPlusOperator(identifier = "RMul", module = "Rl", warn = false)
  public static Value RMul(Value x, Value y) { return s(d(x) * d(y)); }
  @TLAPlusOperator(identifier = "RDiv", module = "Rl", warn = false)
  public static Value RDiv(Value x, Value y) { return s(d(x) / d(y)); }
  @TLAPlusOperator(identifier = "RMin", module = "Rl", warn = false)
  public static Value RMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  @TLAPlusOperator(identifier = "RMax", module = "Rl", warn = false)
  public static Value RMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  @TLAPlusOperator(identifier = "RLt", module = "Rl", warn = false)
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  @TLAPlusOperator(identifier = "RLe", module = "Rl", warn = false)
  public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
  @TLAPlusOperator(identifier = "REq", module = "Rl", warn = false)
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  @TLAPlusOperator(identifier = "RNeg", module = "Rl", warn = false)
  public static Value RNeg(Value x) { return s(-d(x)); }
  @TLAPlusOperator(identifier = "RAbs", module = "Rl", warn = false)
  public static Value RAbs(Value x) { return s(Math.abs(d(x))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "Rl", warn = false)
  public static Value RSqrt(Value x) { return s(Math.sqrt(d(x))); }
  @TLAPlusOperator(identifier = "RExp", module = "Rl", warn = false)
  public static Value RExp(Value x) { return s(Math.exp(d(x))); }
  @TLAPlusOperator(identifier = "RLn", module = "Rl", warn = false)
  public static Value RLn(Value x) { return s(Math.log(d(x))); }
  @TLAPlusOperator(identifier = "RSin", module = "Rl", warn = false)
  public static Value RSin(Value x) { return s(Math.sin(d(x))); }
  @TLAPlusOperator(identifier = "RCos", module = "Rl", warn = false)
  public static Value RCos(Value x) { return s(Math.cos(d(x))); }
  @TLAPlusOperator(identifier = "RAsin", module = "Rl", warn = false)
  public static Value RAsin(Value x) { return s(Math.asin(d(x))); }
  @TLAPlusOperator(identifier = "RFloor", module = "Rl", warn = false)
  public static Value RFloor(Value x) { return s(Math.floor(d(x))); }
  @TLAPlusOperator(identifier = "RPow", module = "Rl", warn = false)
  public static Value RPow(Value x, Value y) { return s(Math.pow(d(x), d(y))); }
  @TLAPlusOperator(identifier = "RAtan2", module = "Rl", warn = false)
  public static Value RAtan2(Value x, Value y) { return s(Math.atan2(d(x), d(y))); }
  @TLAPlusOperator(identifier = "RIsFinite", module = "Rl", warn = false)
  public static Value RIsFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  @TLAPlusOperator(identifier = "RTrunc", module = "Rl", warn = false)
  public static Value RTrunc(Value x) { return IntValue.gen((int) d(x)); }
  @TLAPlusOperator(identifier = "RStr", module = "Rl", warn = false)
  public static Value RStr(Value x) { return s(d(x)); }
  @TLAPlusOperator(identifier = "SLt", module = "Rl", warn = false)
  public static Value SLt(Value x, Value y) { return b(((StringValue) x).val.toString().compareTo(((StringValue) y).val.toString()) < 0); }
  @TLAPlusOperator(identifier = "RSum", module = "Rl", warn = false)
  public static Value RSum(Value q) {
    TupleValue t = (TupleValue) q.toTuple();
    double a = 0.0;
    for (Value v : t.elems) a += d(v);
    return s(a);
  }
}
