import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.ValueConstants;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * An exact rational number n * 2^e / d as a TLC value.  n is odd or zero (then e = 0 and d = 1),
 * d is odd and positive, gcd(n, d) = 1: the representation is canonical.
 */
public final class RatValue extends Value {
    final BigInteger n, d;
    final int e;
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TEN = BigInteger.TEN;
    static final RatValue R0 = new RatValue(ZERO, ONE, 0), R1 = new RatValue(ONE, ONE, 0);

    private RatValue(BigInteger n, BigInteger d, int e) { this.n = n; this.d = d; this.e = e; }

    /** n * 2^e / d with d # 0, normalised. */
    static RatValue make(BigInteger n, BigInteger d, int e) {
        int s = n.signum();
        if (s == 0) return R0;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        int k = n.getLowestSetBit();
        if (k > 0) { n = n.shiftRight(k); e += k; }
        if (d != ONE) {
            k = d.getLowestSetBit();
            if (k > 0) { d = d.shiftRight(k); e -= k; }
            if (d.bitLength() == 1) d = ONE;
            else {
                BigInteger g = n.gcd(d);
                if (g.bitLength() > 1) { n = n.divide(g); d = d.divide(g); if (d.bitLength() == 1) d = ONE; }
            }
        }
        return new RatValue(n, d, e);
    }

    static RatValue of(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return make(BigInteger.valueOf(((IntValue) v).val), ONE, 0);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("not a rational: " + v);
    }

    /** "i", "i/j", "i@e" (= i * 2^e), "-12.34". */
    static RatValue parse(String s) {
        int k = s.indexOf('@');
        if (k >= 0) return make(new BigInteger(s.substring(0, k)), ONE, Integer.parseInt(s.substring(k + 1)));
        k = s.indexOf('/');
        if (k >= 0) return make(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)), 0);
        k = s.indexOf('.');
        if (k >= 0) {
            int f = s.length() - k - 1;
            return make(new BigInteger(s.substring(0, k) + s.substring(k + 1)), TEN.pow(f), 0);
        }
        return make(new BigInteger(s), ONE, 0);
    }

    RatValue neg() { return n.signum() == 0 ? this : new RatValue(n.negate(), d, e); }
    RatValue abs() { return n.signum() < 0 ? neg() : this; }
    RatValue mul(RatValue o) {
        if (n.signum() == 0 || o.n.signum() == 0) return R0;
        BigInteger m = n.multiply(o.n);
        if (d == ONE && o.d == ONE) return new RatValue(m, ONE, e + o.e);
        return make(m, d.multiply(o.d), e + o.e);
    }
    RatValue inv() {
        if (n.signum() == 0) throw new RuntimeException("Rat: division by zero");
        BigInteger a = n.abs();
        return new RatValue(n.signum() < 0 ? d.negate() : d, a.bitLength() == 1 ? ONE : a, -e);
    }
    RatValue add(RatValue o) {
        if (n.signum() == 0) return o;
        if (o.n.signum() == 0) return this;
        int m = Math.min(e, o.e);
        BigInteger a = n, b = o.n, dd = ONE;
        if (e > m) a = a.shiftLeft(e - m);
        if (o.e > m) b = b.shiftLeft(o.e - m);
        if (d != ONE || o.d != ONE) {
            if (d.equals(o.d)) dd = d;
            else { a = a.multiply(o.d); b = b.multiply(d); dd = d.multiply(o.d); }
        }
        return make(a.add(b), dd, m);
    }
    RatValue sub(RatValue o) { return add(o.neg()); }
    int cmp(RatValue o) {
        int s = n.signum(), t = o.n.signum();
        if (s != t) return Integer.compare(s, t);
        if (s == 0) return 0;
        return sub(o).n.signum();
    }

    /** Exact for the square of a rational, otherwise rounded down to about 160 bits. */
    RatValue sqrt() {
        if (n.signum() < 0) throw new RuntimeException("Rat: square root of " + str());
        if (n.signum() == 0) return R0;
        if ((e & 1) == 0) {
            BigInteger sn = n.sqrt(), sd = d.sqrt();
            if (sn.multiply(sn).equals(n) && sd.multiply(sd).equals(d)) return make(sn, sd, e / 2);
        }
        int k = Math.max(0, 320 - n.bitLength() + d.bitLength());
        if (((e - k) & 1) != 0) k++;
        return make(n.shiftLeft(k).divide(d).sqrt(), ONE, (e - k) / 2);
    }

    /** Rounded towards zero to the given number of significant bits. */
    RatValue rnd(int bits) {
        if (d == ONE && n.bitLength() <= bits) return this;
        int k = bits - (n.bitLength() - d.bitLength());
        BigInteger a = n.abs(), q = k >= 0 ? a.shiftLeft(k).divide(d) : a.divide(d.shiftLeft(-k));
        return make(n.signum() < 0 ? q.negate() : q, ONE, e - k);
    }

    String str() {
        if (n.signum() == 0) return "0";
        BigInteger a = n, b = d;
        if (e > 0) a = a.shiftLeft(e);
        if (e < 0) b = b.shiftLeft(-e);
        return b.bitLength() == 1 ? a.toString() : a + "/" + b;
    }

    // ---- Value plumbing ----
    @Override public byte getKind() { return ValueConstants.STRINGVALUE; }
    @Override public int compareTo(Object o) {
        if (o instanceof RatValue) return cmp((RatValue) o);
        throw new RuntimeException("Attempted to compare rational " + str() + " with " + o);
    }
    @Override public boolean equals(Object o) {
        if (o instanceof RatValue) { RatValue r = (RatValue) o; return e == r.e && n.equals(r.n) && d.equals(r.d); }
        throw new RuntimeException("Attempted to check equality of rational " + str() + " with " + o);
    }
    @Override public boolean member(Value v) { throw new RuntimeException("x \\in " + str()); }
    @Override public boolean isFinite() { throw new RuntimeException("IsFinite(" + str() + ")"); }
    @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("EXCEPT on rational"); return ex.value; }
    @Override public Value takeExcept(ValueExcept[] exs) { throw new RuntimeException("EXCEPT on rational"); }
    @Override public int size() { throw new RuntimeException("Cardinality(" + str() + ")"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public void write(IValueOutputStream vos) { throw new RuntimeException("a rational must not be spilled to disk"); }
    @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, ValueConstants.STRINGVALUE), "Q:" + str()); }
    @Override public IValue permute(IMVPerm perm) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) { return sb.append("R(\"").append(str()).append("\")"); }
}
