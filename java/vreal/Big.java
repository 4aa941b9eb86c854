package vreal;

import java.math.BigInteger;

/**
 * Immutable multi-precision binary floating point number m * 2^e with |m| below 2^PREC,
 * plus NaN and the two infinities.  Conversion from IEEE doubles is exact; +, -, *, /, sqrt
 * and the elementary functions are rounded to PREC bits.
 */
public final class Big implements Comparable<Big> {
    static final int PREC = 192;
    final BigInteger m;
    final int e;
    final byte special; // 0 finite, 1 NaN, 2 +inf, 3 -inf

    static final Big NAN = new Big((byte) 1), PINF = new Big((byte) 2), NINF = new Big((byte) 3);
    static final Big ZERO = new Big(BigInteger.ZERO, 0, true);
    static final Big ONE = of(1), TWO = of(2), HALF = of(1).scale(-1), TEN = of(10);

    private Big(byte s) { m = BigInteger.ZERO; e = 0; special = s; }
    private Big(BigInteger m, int e, boolean raw) { this.m = m; this.e = e; this.special = 0; }

    static Big make(BigInteger m, int e) {
        if (m.signum() == 0) return ZERO;
        int bl = m.bitLength();
        if (bl > PREC) {
            int s = bl - PREC;
            boolean up = m.abs().testBit(s - 1);
            BigInteger a = m.abs().shiftRight(s);
            if (up) a = a.add(BigInteger.ONE);
            m = m.signum() < 0 ? a.negate() : a;
            e += s;
        }
        int tz = m.getLowestSetBit();
        if (tz > 0) { m = m.shiftRight(tz); e += tz; }
        return new Big(m, e, true);
    }
    static Big of(long v) { return make(BigInteger.valueOf(v), 0); }
    static Big of(double d) {
        if (Double.isNaN(d)) return NAN;
        if (Double.isInfinite(d)) return d > 0 ? PINF : NINF;
        if (d == 0) return ZERO;
        long bits = Double.doubleToLongBits(d);
        int ex = (int) ((bits >> 52) & 0x7ff);
        long man = bits & 0xfffffffffffffL;
        if (ex == 0) ex = 1; else man |= 1L << 52;
        BigInteger bm = BigInteger.valueOf(d < 0 ? -man : man);
        return make(bm, ex - 1075);
    }
    boolean finite() { return special == 0; }
    boolean isNaN() { return special == 1; }
    int signum() { return special == 2 ? 1 : special == 3 ? -1 : m.signum(); }
    boolean isZero() { return special == 0 && m.signum() == 0; }
    Big neg() { return special == 0 ? new Big(m.negate(), e, true) : special == 2 ? NINF : special == 3 ? PINF : NAN; }
    Big abs() { return signum() < 0 ? neg() : this; }
    Big scale(int k) { return special != 0 || m.signum() == 0 ? this : new Big(m, e + k, true); }
    Big add(Big o) {
        if (special != 0 || o.special != 0) {
            if (isNaN() || o.isNaN()) return NAN;
            if (special != 0 && o.special != 0) return special == o.special ? this : NAN;
            return special != 0 ? this : o;
        }
        if (m.signum() == 0) return o;
        if (o.m.signum() == 0) return this;
        int te = top(), to = o.top();
        if (te - to > PREC + 4) return this;
        if (to - te > PREC + 4) return o;
        if (e >= o.e) return make(m.shiftLeft(e - o.e).add(o.m), o.e);
        return make(m.add(o.m.shiftLeft(o.e - e)), e);
    }
    int top() { return m.bitLength() + e; }
    Big sub(Big o) { return add(o.neg()); }
    Big mul(Big o) {
        if (special != 0 || o.special != 0) {
            if (isNaN() || o.isNaN()) return NAN;
            int s = signum() * o.signum();
            return s == 0 ? NAN : s > 0 ? PINF : NINF;
        }
        return make(m.multiply(o.m), e + o.e);
    }
    Big div(Big o) {
        if (isNaN() || o.isNaN()) return NAN;
        if (o.special != 0) return special != 0 ? NAN : ZERO;
        if (o.m.signum() == 0) return signum() == 0 ? NAN : signum() > 0 ? PINF : NINF;
        if (special != 0) return signum() * o.signum() > 0 ? PINF : NINF;
        if (m.signum() == 0) return ZERO;
        int sh = Math.max(0, PREC + 3 + o.m.bitLength() - m.bitLength());
        BigInteger q = m.shiftLeft(sh).divide(o.m);
        return make(q, e - sh - o.e);
    }
    Big sqrt() {
        if (special == 2) return this;
        if (special != 0 || m.signum() < 0) return NAN;
        if (m.signum() == 0) return ZERO;
        int sh = Math.max(0, 2 * PREC + 6 - m.bitLength());
        if (((e - sh) & 1) != 0) sh++;
        return make(m.shiftLeft(sh).sqrt(), (e - sh) / 2);
    }
    Big powi(long n) {
        if (n < 0) return ONE.div(powi(-n));
        Big r = ONE, b = this;
        while (n > 0) { if ((n & 1) == 1) r = r.mul(b); n >>= 1; if (n > 0) b = b.mul(b); }
        return r;
    }
    public int compareTo(Big o) {
        if (isNaN() || o.isNaN()) return isNaN() ? (o.isNaN() ? 0 : -1) : 1;
        if (special != 0 || o.special != 0) {
            if (special == o.special) return 0;
            if (special == 2 || o.special == 3) return 1;
            return -1;
        }
        int s = m.signum(), t = o.m.signum();
        if (s != t) return s < t ? -1 : 1;
        if (s == 0) return 0;
        int a = top(), b = o.top();
        if (a != b) return (a < b ? -1 : 1) * s;
        int d = e - o.e;
        return d >= 0 ? m.shiftLeft(d).compareTo(o.m) : m.compareTo(o.m.shiftLeft(-d));
    }
    boolean lt(Big o) { return !isNaN() && !o.isNaN() && compareTo(o) < 0; }
    boolean le(Big o) { return !isNaN() && !o.isNaN() && compareTo(o) <= 0; }
    @Override public boolean equals(Object o) { return o instanceof Big && compareTo((Big) o) == 0; }
    @Override public int hashCode() { return m.hashCode() * 31 + e + special; }

    double toDouble() {
        if (special == 1) return Double.NaN;
        if (special == 2) return Double.POSITIVE_INFINITY;
        if (special == 3) return Double.NEGATIVE_INFINITY;
        if (m.signum() == 0) return 0;
        int bl = m.bitLength(), s = Math.max(0, bl - 60);
        return Math.scalb(m.shiftRight(s).doubleValue(), 0) * pow2(e + s);
    }
    private static double pow2(int k) {
        if (k > 1023) return Double.POSITIVE_INFINITY;
        if (k < -1022) return k < -1140 ? 0 : Math.scalb(1.0, k);
        return Math.scalb(1.0, k);
    }
    /** Exact canonical text, used for fingerprints. */
    String key() {
        switch (special) { case 1: return "nan"; case 2: return "inf"; case 3: return "-inf"; }
        return m.toString(16) + "p" + e;
    }
    @Override public String toString() {
        if (special != 0) return key();
        double d = toDouble();
        return (of(d).equals(this) ? "" : "~") + d;
    }
    Big floor() {
        if (special != 0 || e >= 0) return this;
        return make(m.shiftRight(-e), 0);
    }
    long longValue() { return e >= 0 ? m.shiftLeft(e).longValue() : m.shiftRight(-e).longValue(); }

    // ---------------------------------------------------------------- elementary functions
    static final Big LN2, PI;
    static {
        // ln 2 = sum 1/(n 2^n)
        Big s = ZERO;
        for (int n = 1; n <= PREC + 10; n++) s = s.add(ONE.div(of(n)).scale(-n));
        LN2 = s;
        // Machin
        PI = atanInv(5).mul(of(16)).sub(atanInv(239).mul(of(4)));
    }
    private static Big atanInv(long k) {
        Big x = ONE.div(of(k)), x2 = x.mul(x), t = x, s = ZERO;
        for (int n = 0; n < 200; n++) {
            Big term = t.div(of(2 * n + 1));
            s = (n & 1) == 0 ? s.add(term) : s.sub(term);
            t = t.mul(x2);
            if (t.isZero() || t.top() < -PREC - 10) break;
        }
        return s;
    }
    Big exp() {
        if (isNaN()) return NAN;
        if (special == 2) return PINF;
        if (special == 3) return ZERO;
        if (isZero()) return ONE;
        if (top() > 20) return signum() > 0 ? PINF : ZERO;
        Big k = div(LN2).add(HALF).floor();
        Big r = sub(k.mul(LN2)).scale(-12);
        Big t = ONE, s = ONE;
        for (int n = 1; n < 80; n++) {
            t = t.mul(r).div(of(n));
            s = s.add(t);
            if (t.isZero() || t.top() < -PREC - 20) break;
        }
        for (int i = 0; i < 12; i++) s = s.mul(s);
        return s.scale((int) k.longValue());
    }
    Big log() {
        if (isNaN() || signum() < 0) return NAN;
        if (isZero()) return NINF;
        if (special == 2) return PINF;
        int k = top();
        Big x = scale(-k); // in [1/2, 1)
        if (x.lt(of(0.70710678))) { x = x.scale(1); k--; }
        // log x = 2 atanh((x-1)/(x+1)); speed up with a double start + one correction in high precision
        Big y0 = of(Math.log(x.toDouble()));
        Big z = x.mul(y0.neg().exp()); // close to 1
        Big u = z.sub(ONE).div(z.add(ONE)), u2 = u.mul(u), t = u, s = ZERO;
        for (int n = 0; n < 60; n++) {
            s = s.add(t.div(of(2 * n + 1)));
            t = t.mul(u2);
            if (t.isZero() || t.top() < -PREC - 20) break;
        }
        return y0.add(s.scale(1)).add(of(k).mul(LN2));
    }
    Big log1p() {
        if (finite() && top() < -20) {
            // alternating series
            Big s = ZERO, t = this;
            for (int n = 1; n < 40; n++) {
                s = (n & 1) == 1 ? s.add(t.div(of(n))) : s.sub(t.div(of(n)));
                t = t.mul(this);
                if (t.isZero() || t.top() < top() - PREC - 10) break;
            }
            return s;
        }
        return ONE.add(this).log();
    }
    Big asinh() { // sign-symmetric to avoid cancellation
        if (!finite()) return this;
        Big a = abs();
        Big r = a.add(a.mul(a).div(ONE.add(a.mul(a).add(ONE).sqrt()))).log1p();
        return signum() < 0 ? r.neg() : r;
    }
    Big pow(Big y) { return y.isZero() ? ONE : isZero() ? (y.signum() > 0 ? ZERO : PINF) : log().mul(y).exp(); }

    // ---------------------------------------------------------------- gamma family
    private static final Big[] BERN = new Big[31]; // B_2, B_4, ...
    static {
        int N = 62;
        BigInteger[] num = new BigInteger[N + 1], den = new BigInteger[N + 1];
        for (int mI = 0; mI <= N; mI++) {
            // B_m = [m=0] - sum_{k<m} C(m,k) B_k/(m-k+1)
            BigInteger n = mI == 0 ? BigInteger.ONE : BigInteger.ZERO, d = BigInteger.ONE;
            BigInteger c = BigInteger.ONE;
            for (int k = 0; k < mI; k++) {
                BigInteger tn = c.multiply(num[k]).negate(), td = den[k].multiply(BigInteger.valueOf(mI - k + 1));
                n = n.multiply(td).add(tn.multiply(d)); d = d.multiply(td);
                BigInteger g = n.gcd(d); if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
                c = c.multiply(BigInteger.valueOf(mI - k)).divide(BigInteger.valueOf(k + 1));
            }
            num[mI] = n; den[mI] = d;
        }
        for (int i = 1; i <= 30; i++) BERN[i] = make(num[2 * i], 0).div(make(den[2 * i], 0));
    }
    private static final int SHIFT = 40;
    Big lgamma() {
        if (!finite() || signum() <= 0) return special == 2 ? PINF : NAN;
        Big x = this, p = ONE;
        while (x.lt(of(SHIFT))) { p = p.mul(x); x = x.add(ONE); }
        Big r = x.sub(HALF).mul(x.log()).sub(x).add(PI.scale(1).log().scale(-1));
        Big x2 = x.mul(x), t = x;
        for (int i = 1; i <= 30; i++) {
            Big term = BERN[i].div(t.mul(of((2L * i) * (2L * i - 1))));
            r = r.add(term);
            if (term.top() < -PREC - 10) break;
            t = t.mul(x2);
        }
        return p.equals(ONE) ? r : r.sub(p.log());
    }
    Big digamma() {
        if (!finite() || signum() <= 0) return special == 2 ? PINF : NAN;
        Big x = this, a = ZERO;
        while (x.lt(of(SHIFT))) { a = a.add(ONE.div(x)); x = x.add(ONE); }
        Big r = x.log().sub(HALF.div(x));
        Big x2 = x.mul(x), t = x2;
        for (int i = 1; i <= 30; i++) {
            Big term = BERN[i].div(t.mul(of(2L * i)));
            r = r.sub(term);
            if (term.top() < -PREC - 10) break;
            t = t.mul(x2);
        }
        return r.sub(a);
    }
    Big trigamma() {
        if (!finite() || signum() <= 0) return special == 2 ? ZERO : NAN;
        Big x = this, a = ZERO;
        while (x.lt(of(SHIFT))) { a = a.add(ONE.div(x.mul(x))); x = x.add(ONE); }
        Big x2 = x.mul(x);
        Big r = ONE.div(x).add(HALF.div(x2));
        Big t = x2.mul(x);
        for (int i = 1; i <= 30; i++) {
            Big term = BERN[i].div(t);
            r = r.add(term);
            if (term.top() < -PREC - 10) break;
            t = t.mul(x2);
        }
        return r.add(a);
    }
    /** Regularised lower incomplete gamma P(a, x). */
    static Big gammaP(Big a, Big x) {
        if (a.isNaN() || x.isNaN() || a.signum() <= 0) return NAN;
        if (x.signum() <= 0) return ZERO;
        if (x.special == 2) return ONE;
        if (!x.lt(a.add(a).add(of(40)))) return ONE.sub(gammaQ(a, x));
        Big t = ONE, s = ONE, k = a;
        for (int n = 0; n < 200000; n++) {
            k = k.add(ONE);
            t = t.mul(x).div(k);
            s = s.add(t);
            if (t.top() < s.top() - PREC - 5 && x.lt(k)) break;
        }
        Big lead = a.mul(x.log()).sub(x).sub(a.add(ONE).lgamma()).exp();
        Big r = s.mul(lead);
        return ONE.lt(r) ? ONE : r;
    }
    /** Regularised upper incomplete gamma function, with relative accuracy in the far tail. */
    static Big gammaQ(Big a, Big x) {
        if (a.isNaN() || x.isNaN() || a.signum() <= 0) return NAN;
        if (x.signum() <= 0) return ONE;
        if (x.special == 2) return ZERO;
        if (x.lt(a.add(a).add(of(40)))) return ONE.sub(gammaP(a, x));
        Big b = x.add(ONE).sub(a), c = null, d = ONE.div(b), h = d;
        for (int n = 1; n < 100000; n++) {
            Big an = of(n).mul(of(n).sub(a)).neg();
            b = b.add(TWO);
            d = ONE.div(an.mul(d).add(b));
            c = c == null ? b : b.add(an.div(c));   // the first c is infinite
            Big del = c.mul(d);
            h = h.mul(del);
            Big e = del.sub(ONE);
            if (e.signum() == 0 || e.top() < -PREC + 6) break;
        }
        return a.mul(x.log()).sub(x).sub(a.lgamma()).exp().mul(h);
    }
    /** Regularised incomplete beta I_x(a, b). */
    static Big betaI(Big a, Big b, Big x) {
        if (a.isNaN() || b.isNaN() || x.isNaN() || a.signum() <= 0 || b.signum() <= 0) return NAN;
        if (x.signum() <= 0) return ZERO;
        if (ONE.le(x)) return ONE;
        if (a.add(ONE).div(a.add(b).add(TWO)).lt(x)) return ONE.sub(betaS(b, a, ONE.sub(x)));
        return betaS(a, b, x);
    }
    private static Big betaS(Big a, Big b, Big x) {
        Big t = ONE, s = ONE, ab = a.add(b);
        for (int n = 0; n < 200000; n++) {
            Big bn = of(n);
            t = t.mul(ab.add(bn)).div(a.add(ONE).add(bn)).mul(x);
            s = s.add(t);
            if (t.top() < s.top() - PREC - 5) break;
        }
        Big lead = a.mul(x.log()).add(b.mul(x.neg().log1p())).sub(a.log())
                .sub(a.lgamma().add(b.lgamma()).sub(ab.lgamma())).exp();
        Big r = s.mul(lead);
        return ONE.lt(r) ? ONE : r;
    }
    Big normCdf() {
        if (isNaN()) return NAN;
        if (special == 2) return ONE;
        if (special == 3) return ZERO;
        Big q = mul(this).scale(-1);
        if (signum() < 0 && of(42).lt(q)) return gammaQ(HALF, q).scale(-1);
        Big p = gammaP(HALF, q).scale(-1);
        return signum() >= 0 ? HALF.add(p) : HALF.sub(p);
    }
}
