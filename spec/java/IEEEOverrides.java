import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.IValue;

/**
 * Evaluation of the operators of IEEE.tla. A double is the TLA+ value <<hi, lo>>: the two halves of its
 * IEEE-754 bit pattern as (32-bit) integers, so that doubles are ordinary values of a state or a trace.
 */
public class IEEEOverrides {
    static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new IllegalArgumentException("not a double: " + v.getKindString() + " " + v);
        final long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    static Value v(final double x) {
        final long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    static Value b(final boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RAdd", module = "IEEE", warn = false)
    public static Value add(final Value a, final Value c) { return v(d(a) + d(c)); }
    @TLAPlusOperator(identifier = "RSub", module = "IEEE", warn = false)
    public static Value sub(final Value a, final Value c) { return v(d(a) - d(c)); }
    @TLAPlusOperator(identifier = "RMul", module = "IEEE", warn = false)
    public static Value mul(final Value a, final Value c) { return v(d(a) * d(c)); }
    @TLAPlusOperator(identifier = "RDiv", module = "IEEE", warn = false)
    public static Value div(final Value a, final Value c) { return v(d(a) / d(c)); }
    @TLAPlusOperator(identifier = "RNeg", module = "IEEE", warn = false)
    public static Value neg(final Value a) { return v(-d(a)); }
    @TLAPlusOperator(identifier = "RAbs", module = "IEEE", warn = false)
    public static Value abs(final Value a) { return v(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "RSqrt", module = "IEEE", warn = false)
    public static Value sqrt(final Value a) { return v(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "RSin", module = "IEEE", warn = false)
    public static Value sin(final Value a) { return v(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "RCos", module = "IEEE", warn = false)
    public static Value cos(final Value a) { return v(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "RTan", module = "IEEE", warn = false)
    public static Value tan(final Value a) { return v(Math.tan(d(a))); }
    @TLAPlusOperator(identifier = "RAcos", module = "IEEE", warn = false)
    public static Value acos(final Value a) { return v(Math.acos(d(a))); }
    @TLAPlusOperator(identifier = "RAtan2", module = "IEEE", warn = false)
    public static Value atan2(final Value a, final Value c) { return v(Math.atan2(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RExp", module = "IEEE", warn = false)
    public static Value exp(final Value a) { return v(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "RLog", module = "IEEE", warn = false)
    public static Value log(final Value a) { return v(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "RPow", module = "IEEE", warn = false)
    public static Value pow(final Value a, final Value c) { return v(Math.pow(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RFloor", module = "IEEE", warn = false)
    public static Value floor(final Value a) { return v(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "RMax", module = "IEEE", warn = false)
    public static Value max(final Value a, final Value c) { return v(Math.max(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RMin", module = "IEEE", warn = false)
    public static Value min(final Value a, final Value c) { return v(Math.min(d(a), d(c))); }
    @TLAPlusOperator(identifier = "RLt", module = "IEEE", warn = false)
    public static Value lt(final Value a, final Value c) { return b(d(a) < d(c)); }
    @TLAPlusOperator(identifier = "RLe", module = "IEEE", warn = false)
    public static Value le(final Value a, final Value c) { return b(d(a) <= d(c)); }
    @TLAPlusOperator(identifier = "REq", module = "IEEE", warn = false)
    public static Value eq(final Value a, final Value c) { return b(d(a) == d(c)); }
    @TLAPlusOperator(identifier = "RIsNaN", module = "IEEE", warn = false)
    public static Value nan(final Value a) { return b(Double.isNaN(d(a))); }
    @TLAPlusOperator(identifier = "RIsFinite", module = "IEEE", warn = false)
    public static Value fin(final Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
    @TLAPlusOperator(identifier = "RInt", module = "IEEE", warn = false)
    public static Value fromInt(final Value a) { return v(((IntValue) a).val); }
    @TLAPlusOperator(identifier = "RTrunc", module = "IEEE", warn = false)
    public static Value toInt(final Value a) { return IntValue.gen((int) d(a)); }
    @TLAPlusOperator(identifier = "RLit", module = "IEEE", warn = false)
    public static Value lit(final Value a) { return v(Double.parseDouble(((StringValue) a).val.toString())); }
    @TLAPlusOperator(identifier = "RText", module = "IEEE", warn = false)
    public static Value text(final Value a) { return new StringValue(Double.toString(d(a))); }
    /** decimal rounding as done by "%.nf": the double nearest to the correctly rounded decimal */
    @TLAPlusOperator(identifier = "RRound", module = "IEEE", warn = false)
    public static Value round(final Value a, final Value n) {
        return v(new java.math.BigDecimal(d(a)).setScale(((IntValue) n).val, java.math.RoundingMode.HALF_EVEN).doubleValue());
    }

    @TLAPlusOperator(identifier = "RSum", module = "IEEE", warn = false)
    public static Value sum(final Value s) {
        double acc = 0;
        for (final Value e : ((TupleValue) s.toTuple()).elems) acc += d(e);
        return v(acc);
    }
    @TLAPlusOperator(identifier = "RMaxAbs", module = "IEEE", warn = false)
    public static Value maxAbs(final Value s) {
        double acc = 0;
        for (final Value e : ((TupleValue) s.toTuple()).elems) { final double x = Math.abs(d(e)); if (x <= Double.MAX_VALUE) acc = Math.max(acc, x); }
        return v(acc);
    }
    @TLAPlusOperator(identifier = "RDot", module = "IEEE", warn = false)
    public static Value dot(final Value s, final Value t) {
        final Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) t.toTuple()).elems;
        double acc = 0;
        for (int i = 0; i < x.length; i++) acc += d(x[i]) * d(y[i]);
        return v(acc);
    }
}
