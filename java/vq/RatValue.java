package vq;

import java.io.IOException;
import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.ModelValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * An exact rational number as a TLC value: n/d with d > 0.  The fraction is brought to lowest terms when
 * that is needed (equality, fingerprints, text) or when it has become much longer than its operands were
 * in lowest terms; in between it may be unreduced, which saves most of the gcd computations.
 */
public final class RatValue extends Value {
    private static final class Frac {
        final BigInteger n, d;
        final boolean lowest;
        final int bits;     // length of the operands when last in lowest terms

        Frac(BigInteger n, BigInteger d, boolean lowest, int bits) {
            this.n = n;
            this.d = d;
            this.lowest = lowest;
            this.bits = bits;
        }
    }

    private volatile Frac f;

    public static final RatValue ZERO = new RatValue(new Frac(BigInteger.ZERO, BigInteger.ONE, true, 1));
    public static final RatValue ONE = new RatValue(new Frac(BigInteger.ONE, BigInteger.ONE, true, 1));

    private RatValue(Frac f) {
        this.f = f;
    }

    public static RatValue of(BigInteger n, BigInteger d) {
        return make(n, d, 0);
    }

    private static int len(BigInteger n, BigInteger d) {
        return n.bitLength() + d.bitLength();
    }

    private static RatValue make(BigInteger n, BigInteger d, int bits) {
        int s = d.signum();
        if (s == 0) throw new ArithmeticException("rational with denominator 0");
        if (s < 0) {
            n = n.negate();
            d = d.negate();
        }
        if (n.signum() == 0) return ZERO;
        // the power of two first: most denominators are (nearly) dyadic
        int zd = d.getLowestSetBit();
        int z = zd == 0 ? 0 : Math.min(n.getLowestSetBit(), zd);
        if (z > 0) {
            n = n.shiftRight(z);
            d = d.shiftRight(z);
            zd -= z;
        }
        if (d.bitLength() == zd + 1) return new RatValue(new Frac(n, d, true, len(n, d)));
        int now = len(n, d);
        if (now < 2 * bits + 128) return new RatValue(new Frac(n, d, false, bits));
        return new RatValue(lowest(n, d));
    }

    private static Frac lowest(BigInteger n, BigInteger d) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) {
            n = n.divide(g);
            d = d.divide(g);
        }
        return new Frac(n, d, true, len(n, d));
    }

    private Frac low() {
        Frac x = f;
        if (!x.lowest) {
            x = lowest(x.n, x.d);
            f = x;
        }
        return x;
    }

    /** Numerator in lowest terms (so that num and den belong together whatever other workers do). */
    public BigInteger num() {
        return low().n;
    }

    public BigInteger den() {
        return low().d;
    }

    public int signum() {
        return f.n.signum();
    }

    public RatValue add(RatValue o) {
        Frac x = f, y = o.f;
        if (x.n.signum() == 0) return o;
        if (y.n.signum() == 0) return this;
        int bits = Math.max(x.bits, y.bits);
        if (x.d.equals(y.d)) return make(x.n.add(y.n), x.d, bits);
        return make(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d), bits);
    }

    public RatValue sub(RatValue o) {
        return add(o.neg());
    }

    public RatValue mul(RatValue o) {
        Frac x = f, y = o.f;
        if (x.n.signum() == 0 || y.n.signum() == 0) return ZERO;
        return make(x.n.multiply(y.n), x.d.multiply(y.d), Math.max(x.bits, y.bits));
    }

    public RatValue div(RatValue o) {
        Frac x = f, y = o.f;
        return make(x.n.multiply(y.d), x.d.multiply(y.n), Math.max(x.bits, y.bits));
    }

    public RatValue neg() {
        Frac x = f;
        return new RatValue(new Frac(x.n.negate(), x.d, x.lowest, x.bits));
    }

    public RatValue abs() {
        return signum() < 0 ? neg() : this;
    }

    public int cmp(RatValue o) {
        Frac x = f, y = o.f;
        int s = x.n.signum(), t = y.n.signum();
        if (s != t) return Integer.compare(s, t);
        if (x.d.equals(y.d)) return x.n.compareTo(y.n);
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
    }

    @Override
    public byte getKind() {
        return USERVALUE;
    }

    @Override
    public int compareTo(Object other) {
        if (other instanceof RatValue) return cmp((RatValue) other);
        if (other instanceof ModelValue) return ((ModelValue) other).modelValueCompareTo(this);
        throw new RuntimeException("comparing the rational " + this + " with " + other);
    }

    @Override
    public boolean equals(Object other) {
        if (other instanceof RatValue) {
            return cmp((RatValue) other) == 0;
        }
        if (other instanceof ModelValue) return ((ModelValue) other).modelValueEquals(this);
        throw new RuntimeException("comparing the rational " + this + " with " + other);
    }

    @Override
    public boolean member(Value elem) {
        throw new RuntimeException("a rational has no members: " + this);
    }

    @Override
    public boolean isFinite() {
        throw new RuntimeException("a rational is not a set: " + this);
    }

    @Override
    public Value takeExcept(ValueExcept ex) {
        if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on the rational " + this);
        return ex.value;
    }

    @Override
    public Value takeExcept(ValueExcept[] exs) {
        return exs.length == 0 ? this : takeExcept(exs[exs.length - 1]);
    }

    @Override
    public int size() {
        throw new RuntimeException("a rational has no size: " + this);
    }

    @Override
    public boolean mutates() {
        return false;
    }

    @Override
    public boolean isNormalized() {
        return true;
    }

    @Override
    public Value normalize() {
        return this;
    }

    @Override
    public boolean isDefined() {
        return true;
    }

    @Override
    public IValue deepCopy() {
        return this;
    }

    @Override
    public void write(IValueOutputStream vos) throws IOException {
        throw new IOException("rationals stay in memory: raise the model's queue size");
    }

    @Override
    public long fingerPrint(long fp) {
        Frac x = low();
        fp = FP64.Extend(fp, (byte) 77);
        byte[] b = x.n.toByteArray();
        fp = FP64.Extend(fp, b, 0, b.length);
        fp = FP64.Extend(fp, (byte) 78);
        b = x.d.toByteArray();
        return FP64.Extend(fp, b, 0, b.length);
    }

    @Override
    public IValue permute(IMVPerm perm) {
        return this;
    }

    @Override
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        Frac x = low();
        sb.append(x.n);
        if (!x.d.equals(BigInteger.ONE)) sb.append('/').append(x.d);
        return sb;
    }
}
