package vq;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Java implementations of the operators of Rat.tla (see that module for their meaning). */
public final class RatOps {
    private RatOps() {}

    static RatValue r(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        throw new RuntimeException("not a rational: " + v);
    }

    private static Value b(boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "Q", module = "Rat", warn = false)
    public static Value q(Value n, Value d) {
        return RatValue.of(BigInteger.valueOf(((IntValue) n).val), BigInteger.valueOf(((IntValue) d).val));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value add(Value x, Value y) {
        return r(x).add(r(y));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value sub(Value x, Value y) {
        return r(x).sub(r(y));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value mul(Value x, Value y) {
        return r(x).mul(r(y));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value div(Value x, Value y) {
        return r(x).div(r(y));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value neg(Value x) {
        return r(x).neg();
    }

    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value abs(Value x) {
        return r(x).abs();
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value le(Value x, Value y) {
        return b(r(x).cmp(r(y)) <= 0);
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value lt(Value x, Value y) {
        return b(r(x).cmp(r(y)) < 0);
    }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value eq(Value x, Value y) {
        return b(r(x).equals(r(y)));
    }

    /** x rounded up to 32 significant bits. */
    @TLAPlusOperator(identifier = "RUp", module = "Rat", warn = false)
    public static Value up(Value x) {
        RatValue v = r(x);
        BigInteger n = v.num(), d = v.den();
        if (n.signum() == 0) return v;
        int s = n.bitLength() - d.bitLength() - 32;
        BigInteger[] q = s >= 0 ? n.divideAndRemainder(d.shiftLeft(s)) : n.shiftLeft(-s).divideAndRemainder(d);
        BigInteger m = q[1].signum() > 0 ? q[0].add(BigInteger.ONE) : q[0];
        return s >= 0 ? RatValue.of(m.shiftLeft(s), BigInteger.ONE) : RatValue.of(m, BigInteger.ONE.shiftLeft(-s));
    }

    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value max(Value x, Value y) {
        return r(x).cmp(r(y)) >= 0 ? x : y;
    }

    @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
    public static Value min(Value x, Value y) {
        return r(x).cmp(r(y)) <= 0 ? x : y;
    }

    private static final ConcurrentHashMap<String, RatValue> PARSED = new ConcurrentHashMap<>();

    /** "n", "n/d", a decimal, or a C99 hexadecimal floating constant: the exact value it denotes. */
    @TLAPlusOperator(identifier = "RParse", module = "Rat", warn = false)
    public static Value parse(Value s) {
        String t = ((StringValue) s).val.toString();
        RatValue v = PARSED.get(t);
        if (v == null) {
            v = parse(t);
            PARSED.put(t, v);
        }
        return v;
    }

    static RatValue parse(String t) {
        int slash = t.indexOf('/');
        if (slash >= 0) {
            return RatValue.of(new BigInteger(t.substring(0, slash)), new BigInteger(t.substring(slash + 1)));
        }
        BigDecimal x;
        if (t.contains("0x")) {
            double dv = Double.parseDouble(t);
            if (Double.isNaN(dv) || Double.isInfinite(dv)) throw new RuntimeException("not finite: " + t);
            x = new BigDecimal(dv);
        } else {
            x = new BigDecimal(t);
        }
        BigInteger u = x.unscaledValue();
        int sc = x.scale();
        return sc >= 0
                ? RatValue.of(u, BigInteger.TEN.pow(sc))
                : RatValue.of(u.multiply(BigInteger.TEN.pow(-sc)), BigInteger.ONE);
    }

    /** Is the string a finite number that RParse accepts? */
    @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
    public static Value isNum(Value s) {
        if (!(s instanceof StringValue)) return BoolValue.ValFalse;
        try {
            parse(s);
            return BoolValue.ValTrue;
        } catch (RuntimeException e) {
            return BoolValue.ValFalse;
        }
    }

    /** Is the string a decimal integer, digits possibly after a minus sign? */
    @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
    public static Value isInt(Value s) {
        return s instanceof StringValue && ((StringValue) s).val.toString().matches("-?[0-9]+")
            ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** The canonical text "n" or "n/d" of a rational. */
    @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
    public static Value show(Value x) {
        return new StringValue(r(x).toString());
    }
    static Value[] elems(Value v) {
        if (v instanceof tlc2.value.impl.TupleValue) return ((tlc2.value.impl.TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return ((tlc2.value.impl.TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value sum(Value s) {
        RatValue acc = RatValue.ZERO;
        for (Value e : elems(s)) acc = acc.add(r(e));
        return acc;
    }

    private static RatValue dot(Value[] c, Value[] s) {
        if (c.length < s.length) throw new RuntimeException("RDot: lengths differ");
        RatValue acc = RatValue.ZERO;
        for (int i = 0; i < s.length; i++) {
            RatValue a = r(c[i]);
            if (a.signum() == 0) continue;
            acc = acc.add(a.mul(r(s[i])));
        }
        return acc;
    }

    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value dot(Value c, Value s) {
        return dot(elems(c), elems(s));
    }

    @TLAPlusOperator(identifier = "RComb", module = "Rat", warn = false)
    public static Value comb(Value c, Value p) {
        Value[] cs = elems(c), ps = elems(p);
        if (ps.length == 0) return tlc2.value.impl.TupleValue.EmptyTuple;
        if (cs.length < ps.length) throw new RuntimeException("RComb: lengths differ");
        int n = elems(ps[0]).length;
        RatValue[] acc = new RatValue[n];
        java.util.Arrays.fill(acc, RatValue.ZERO);
        for (int i = 0; i < ps.length; i++) {
            RatValue a = r(cs[i]);
            if (a.signum() == 0) continue;
            Value[] pt = elems(ps[i]);
            for (int j = 0; j < n; j++) acc[j] = acc[j].add(a.mul(r(pt[j])));
        }
        return new tlc2.value.impl.TupleValue(java.util.Arrays.copyOf(acc, n, Value[].class));
    }

    @TLAPlusOperator(identifier = "RMaxAbs", module = "Rat", warn = false)
    public static Value maxAbs(Value s) {
        RatValue acc = RatValue.ZERO;
        for (Value e : elems(s)) {
            RatValue a = r(e).abs();
            if (a.cmp(acc) > 0) acc = a;
        }
        return acc;
    }

    private static boolean near(Value x, Value y, Value tol) {
        return r(x).sub(r(y)).abs().cmp(r(tol)) <= 0;
    }

    @TLAPlusOperator(identifier = "RNear", module = "Rat", warn = false)
    public static Value nearOp(Value x, Value y, Value tol) {
        return b(near(x, y, tol));
    }

    @TLAPlusOperator(identifier = "RNearAll", module = "Rat", warn = false)
    public static Value nearAll(Value x, Value y, Value tol) {
        Value[] a = elems(x), c = elems(y);
        if (a.length != c.length) return BoolValue.ValFalse;
        for (int i = 0; i < a.length; i++) if (!near(a[i], c[i], tol)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "RIsNums", module = "Rat", warn = false)
    public static Value isNums(Value s) {
        Value t = s.toTuple();
        if (t == null) return BoolValue.ValFalse;
        for (Value e : elems(t)) if (isNum(e) == BoolValue.ValFalse) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "RParses", module = "Rat", warn = false)
    public static Value parses(Value s) {
        Value[] a = elems(s);
        Value[] out = new Value[a.length];
        for (int i = 0; i < a.length; i++) out[i] = parse(a[i]);
        return new tlc2.value.impl.TupleValue(out);
    }
}
