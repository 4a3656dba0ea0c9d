package vq;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Faster evaluation of some operators of Spline.tla: the same recursions on integers over a common
 * denominator.  MCRat.tla compares them with the definitions.
 */
public final class SplineOps {
    private SplineOps() {}

    private static RatValue[] rats(Value v) {
        Value[] e = RatOps.elems(v);
        RatValue[] out = new RatValue[e.length];
        for (int i = 0; i < e.length; i++) out[i] = RatOps.r(e[i]);
        return out;
    }

    private static int i(Value v) {
        return ((IntValue) v).val;
    }

    private static BigInteger lcm(BigInteger a, BigInteger b) {
        if (a.equals(b) || b.equals(BigInteger.ONE)) return a;
        if (a.equals(BigInteger.ONE)) return b;
        if (a.getLowestSetBit() == a.bitLength() - 1 && b.getLowestSetBit() == b.bitLength() - 1) return a.max(b);
        return a.divide(a.gcd(b)).multiply(b);
    }

    private static TupleValue tuple(Value[] v) {
        return new TupleValue(v);
    }

    /** Coefficients [function][order] over the returned common denominator. */
    private static BigInteger[][] series(int p, Value[] U, int k, RatValue x, int m, boolean abs, BigInteger[] denOut) {
        BigInteger L = x.den();
        for (int j = k - p + 1; j <= k + p; j++) L = lcm(L, RatOps.r(U[j]).den());
        // scaled knots u[j - (k - p + 1)] and parameter
        BigInteger[] u = new BigInteger[2 * p];
        for (int j = 0; j < 2 * p; j++) {
            RatValue v = RatOps.r(U[k - p + 1 + j]);
            u[j] = v.num().multiply(L.divide(v.den()));
        }
        BigInteger xs = x.num().multiply(L.divide(x.den()));
        BigInteger[][] prev = new BigInteger[1][m + 1];
        java.util.Arrays.fill(prev[0], BigInteger.ZERO);
        prev[0][0] = BigInteger.ONE;
        BigInteger D = BigInteger.ONE;
        for (int q = 0; q < p; q++) {
            // prev[j] = N_(k-q+j, q); its denominator is U[i+q+1] - U[i], i = k-q+j
            BigInteger[] d = new BigInteger[q + 1];
            BigInteger M = BigInteger.ONE;
            for (int j = 0; j <= q; j++) {
                int i = k - q + j;
                d[j] = u[i + q + 1 - (k - p + 1)].subtract(u[i - (k - p + 1)]);
                if (d[j].signum() == 0) throw new ArithmeticException("empty span");
                M = lcm(M, d[j]);
            }
            BigInteger[][] next = new BigInteger[q + 2][m + 1];
            for (BigInteger[] row : next) java.util.Arrays.fill(row, BigInteger.ZERO);
            for (int j = 0; j <= q; j++) {
                int i = k - q + j;
                BigInteger f = M.divide(d[j]);
                BigInteger a = xs.subtract(u[i - (k - p + 1)]).multiply(f);            // to N_(i, q+1)
                BigInteger b = u[i + q + 1 - (k - p + 1)].subtract(xs).multiply(f);    // to N_(i-1, q+1)
                BigInteger t = L.multiply(f);
                for (int o = 0; o <= m; o++) {
                    BigInteger c = prev[j][o];
                    if (c.signum() == 0) continue;
                    next[j + 1][o] = next[j + 1][o].add(a.multiply(c));
                    next[j][o] = next[j][o].add(b.multiply(c));
                    if (o < m) {
                        BigInteger tc = t.multiply(c);
                        next[j + 1][o + 1] = next[j + 1][o + 1].add(tc);
                        next[j][o + 1] = abs ? next[j][o + 1].add(tc) : next[j][o + 1].subtract(tc);
                    }
                }
            }
            prev = next;
            D = D.multiply(M);
        }
        denOut[0] = D;
        return prev;
    }

    @TLAPlusOperator(identifier = "BasisAt", module = "Spline", warn = false)
    public static Value basisAt(Value p, Value U, Value k, Value x) {
        BigInteger[] den = new BigInteger[1];
        BigInteger[][] s = series(i(p), RatOps.elems(U), i(k), RatOps.r(x), 0, false, den);
        Value[] out = new Value[s.length];
        for (int r = 0; r < s.length; r++) out[r] = RatValue.of(s[r][0], den[0]);
        return tuple(out);
    }

    @TLAPlusOperator(identifier = "BasisSeriesAt", module = "Spline", warn = false)
    public static Value basisSeriesAt(Value p, Value U, Value k, Value x, Value m) {
        return seriesAt(p, U, k, x, m, false);
    }

    @TLAPlusOperator(identifier = "AbsSeriesAt", module = "Spline", warn = false)
    public static Value absSeriesAt(Value p, Value U, Value k, Value x, Value m) {
        return seriesAt(p, U, k, x, m, true);
    }

    private static Value seriesAt(Value p, Value U, Value k, Value x, Value m, boolean abs) {
        BigInteger[] den = new BigInteger[1];
        int mm = i(m);
        BigInteger[][] s = series(i(p), RatOps.elems(U), i(k), RatOps.r(x), mm, abs, den);
        Value[] out = new Value[s.length];
        for (int r = 0; r < s.length; r++) {
            Value[] row = new Value[mm + 1];
            for (int o = 0; o <= mm; o++) row[o] = RatValue.of(s[r][o], den[0]);
            out[r] = tuple(row);
        }
        return tuple(out);
    }

    /** Points as integers over one common denominator (which cancels in a quotient). */
    private static BigInteger[][] integers(RatValue[][] h) {
        BigInteger L = BigInteger.ONE;
        for (RatValue[] q : h) for (RatValue v : q) L = lcm(L, v.den());
        BigInteger[][] out = new BigInteger[h.length][];
        for (int j = 0; j < h.length; j++) {
            out[j] = new BigInteger[h[j].length];
            for (int e = 0; e < h[j].length; e++) out[j][e] = h[j][e].num().multiply(L.divide(h[j][e].den()));
        }
        return out;
    }

    /** Quotient of the series h (index a * (mv + 1) + b) by its fourth component. */
    private static Value[] quotient(RatValue[][] hr, int mu, int mv) {
        BigInteger[][] h = integers(hr);
        int n = (mu + 1) * (mv + 1);
        BigInteger w0 = h[0][3];
        BigInteger[] pw = new BigInteger[mu + mv + 2];
        pw[0] = BigInteger.ONE;
        for (int j = 1; j < pw.length; j++) pw[j] = pw[j - 1].multiply(w0);
        BigInteger[][] Q = new BigInteger[n][4];
        Value[] out = new Value[n];
        for (int a = 0; a <= mu; a++) {
            for (int b = 0; b <= mv; b++) {
                int z = a * (mv + 1) + b;
                for (int e = 0; e < 4; e++) Q[z][e] = h[z][e].multiply(pw[a + b]);
                for (int i = 0; i <= a; i++) {
                    for (int j = 0; j <= b; j++) {
                        if (i == 0 && j == 0) continue;
                        BigInteger w = h[i * (mv + 1) + j][3];
                        if (w.signum() == 0) continue;
                        w = w.multiply(pw[i + j - 1]);
                        BigInteger[] src = Q[(a - i) * (mv + 1) + (b - j)];
                        for (int e = 0; e < 4; e++) Q[z][e] = Q[z][e].subtract(w.multiply(src[e]));
                    }
                }
                Value[] pt = new Value[4];
                for (int e = 0; e < 4; e++) pt[e] = RatValue.of(Q[z][e], pw[a + b + 1]);
                out[z] = tuple(pt);
            }
        }
        return out;
    }

    private static void empty(Value acc) {
        if (RatOps.elems(acc).length != 0) throw new RuntimeException("starts with the empty sequence");
    }

    @TLAPlusOperator(identifier = "DivSeries", module = "Spline", warn = false)
    public static Value divSeries(Value H, Value m, Value acc) {
        empty(acc);
        Value[] e = RatOps.elems(H);
        int mm = i(m);
        RatValue[][] h = new RatValue[mm + 1][];
        for (int j = 0; j <= mm; j++) h[j] = rats(e[j]);
        return tuple(quotient(h, 0, mm));
    }

    @TLAPlusOperator(identifier = "DivSeries2", module = "Spline", warn = false)
    public static Value divSeries2(Value H, Value mu, Value mv, Value acc) {
        empty(acc);
        Value[] e = RatOps.elems(H);
        int a = i(mu), b = i(mv);
        RatValue[][] h = new RatValue[(a + 1) * (b + 1)][];
        for (int j = 0; j <= a; j++) {
            Value[] row = RatOps.elems(e[j]);
            for (int l = 0; l <= b; l++) h[j * (b + 1) + l] = rats(row[l]);
        }
        return tuple(quotient(h, a, b));
    }

    /** The largest k >= 0 with U[k] <= x and U[k] < U[k+1], indices from 0. */
    @TLAPlusOperator(identifier = "Span", module = "Spline", warn = false)
    public static Value span(Value U, Value x) {
        Value[] u = RatOps.elems(U);
        RatValue v = RatOps.r(x);
        for (int k = u.length - 2; k >= 0; k--) {
            RatValue a = RatOps.r(u[k]);
            if (a.cmp(v) <= 0 && a.cmp(RatOps.r(u[k + 1])) < 0) return IntValue.gen(k);
        }
        throw new RuntimeException("Span: no span for " + x);
    }
}
