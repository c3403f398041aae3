// Java module override for the operators of spec/Fun.tla (see there for their meaning).
// ElemSelfTest.tla checks it against the series in Fun.tla.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.Value;

public final class Fun {
    static final int P = 320;      // fractional bits of the fixed-point numbers below
    static final BigInteger ONE = BigInteger.ONE.shiftLeft(P);
    static final BigInteger LN2 = ln2();

    private static BigInteger ln2() {      // 2 atanh(1/3)
        BigInteger t = ONE.divide(BigInteger.valueOf(3)), s = t;
        for (int k = 3; t.signum() != 0; k += 2) { t = t.divide(BigInteger.valueOf(9)); s = s.add(t.divide(BigInteger.valueOf(k))); }
        return s.shiftLeft(1);
    }
    private static BigInteger mul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(P); }
    private static BigInteger fixed(Real.RV x) {
        int sh = Real.BITS * x.e + P;
        BigInteger m = sh >= 0 ? x.m.shiftLeft(sh) : x.m.shiftRight(-sh);
        return x.s < 0 ? m.negate() : m;
    }
    /** f * 2^(k-P) */
    private static Real.RV real(BigInteger f, int k) {
        int b = k - P, e = Math.floorDiv(b, Real.BITS);
        return Real.norm(f.signum(), e, f.abs().shiftLeft(b - e * Real.BITS));
    }
    /** exp of a fixed-point number below 1 in magnitude */
    private static BigInteger exp1(BigInteger r) {
        BigInteger h = r.shiftRight(16), t = ONE, s = ONE;
        for (int k = 1; k < 40; k++) { t = mul(t, h).divide(BigInteger.valueOf(k)); if (t.signum() == 0 || t.bitLength() < 2) break; s = s.add(t); }
        for (int i = 0; i < 16; i++) s = mul(s, s);
        return s;
    }
    public static Value RExp(Value v) {
        Real.RV x = Real.dec(v);
        if (x.s == 0) return Real.norm(1, 0, BigInteger.ONE);
        int top = Real.BITS * (x.e + x.elems.length - 2);
        if (top > 60) { if (x.s < 0) return Real.ZERO; throw new RuntimeException("exponential out of range: " + v); }
        if (top < -200) return Real.norm(1, 0, BigInteger.ONE);
        BigInteger f = fixed(x);
        if (x.s < 0 && f.compareTo(ONE.multiply(BigInteger.valueOf(-20000))) < 0) return Real.ZERO;
        if (f.shiftRight(P).bitLength() > 28) throw new RuntimeException("exponential out of range: " + v);
        int k = f.multiply(BigInteger.valueOf(2)).divide(LN2).add(BigInteger.ONE).shiftRight(1).intValue();
        return real(exp1(f.subtract(LN2.multiply(BigInteger.valueOf(k)))), k);
    }
    public static Value RLn(Value v) {
        Real.RV x = Real.dec(v);
        if (x.s <= 0) throw new RuntimeException("logarithm of " + v);
        int n = x.m.bitLength(), ex = Real.BITS * x.e + n - 1;            // 2^ex <= x < 2^(ex+1)
        int sh = P - (n - 1);
        BigInteger m = sh >= 0 ? x.m.shiftLeft(sh) : x.m.shiftRight(-sh); // [1, 2)
        if (m.testBit(P - 1)) { m = m.shiftRight(1); ex++; }              // [3/4, 3/2)
        double d = m.shiftRight(P - 60).longValue() / (double) (1L << 60);
        BigInteger y = BigInteger.valueOf((long) (Math.log(d) * (1L << 60))).shiftLeft(P - 60);
        for (int i = 0; i < 2; i++) {                                      // y += 2 (m - e^y) / (m + e^y)
            BigInteger e = exp1(y);
            y = y.add(m.subtract(e).shiftLeft(P + 1).divide(m.add(e)));
        }
        return real(y.add(LN2.multiply(BigInteger.valueOf(ex))), 0);
    }
    public static Value RSqrt(Value v) {
        Real.RV x = Real.dec(v);
        if (x.s < 0) throw new RuntimeException("square root of " + v);
        if (x.s == 0) return Real.ZERO;
        int b = Real.BITS * x.e, sh = 2 * P + (b & 1);
        return real(x.m.shiftLeft(sh).sqrt(), (b - (b & 1)) / 2);
    }
    public static Value RSum(Value s) {
        tlc2.value.impl.TupleValue t = (tlc2.value.impl.TupleValue) s.toTuple();
        Value r = Real.ZERO;
        for (Value x : t.elems) r = Real.RAdd(r, x);
        return r;
    }
}
