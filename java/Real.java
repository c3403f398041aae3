// Java module override for the operators of spec/Real.tla (see there for their meaning).
// RealSelfTest.tla checks it against the TLA+ definitions in RealPure.tla.
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public final class Real {
    static final int K = 10;
    static final int BITS = 15;
    static final int B = 1 << BITS;

    /** A TLA+ tuple that remembers its decoded form. */
    static final class RV extends TupleValue {
        final int s; final int e; final BigInteger m;
        RV(Value[] elems, int s, int e, BigInteger m) { super(elems); this.s = s; this.e = e; this.m = m; }
    }

    static RV dec(Value v) {
        if (v instanceof RV) return (RV) v;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a real: " + v);
        Value[] el = ((TupleValue) t).elems;
        int s = ((IntValue) el[0]).val, e = ((IntValue) el[1]).val;
        if (s < -1 || s > 1) throw new RuntimeException("not a finite real: " + v);
        BigInteger m = BigInteger.ZERO;
        for (int i = el.length - 1; i >= 2; i--) m = m.shiftLeft(BITS).or(BigInteger.valueOf(((IntValue) el[i]).val));
        return new RV(el, s, e, m);
    }

    static final RV ZERO = new RV(new Value[]{IntValue.gen(0), IntValue.gen(0)}, 0, 0, BigInteger.ZERO);

    static RV norm(int s, int e, BigInteger m) {
        if (s == 0 || m.signum() == 0) return ZERO;
        int len = (m.bitLength() + BITS - 1) / BITS;
        if (len > K) { m = m.shiftRight(BITS * (len - K)); e += len - K; len = K; }
        int z = m.getLowestSetBit() / BITS;
        if (z > 0) { m = m.shiftRight(BITS * z); e += z; len -= z; }
        Value[] el = new Value[2 + len];
        el[0] = IntValue.gen(s); el[1] = IntValue.gen(e);
        byte[] by = m.toByteArray();
        int acc = 0, nb = 0, p = by.length - 1;
        for (int i = 0; i < len; i++) {
            while (nb < BITS && p >= 0) { acc |= (by[p--] & 255) << nb; nb += 8; }
            el[2 + i] = IntValue.gen(acc & (B - 1)); acc >>>= BITS; nb -= BITS;
        }
        return new RV(el, s, e, m);
    }

    private static int limbs(RV x) { return x.elems.length - 2; }

    private static RV add(RV x, RV y, int sy) {
        if (x.s == 0) return sy == y.s ? y : norm(sy, y.e, y.m);
        if (y.s == 0) return x;
        int tx = x.e + limbs(x), ty = y.e + limbs(y);
        if (tx - ty > K + 2) return x;
        if (ty - tx > K + 2) return sy == y.s ? y : norm(sy, y.e, y.m);
        int e = Math.min(x.e, y.e);
        BigInteger a = x.m.shiftLeft(BITS * (x.e - e)), b = y.m.shiftLeft(BITS * (y.e - e));
        if (x.s == sy) return norm(x.s, e, a.add(b));
        BigInteger d = a.subtract(b);
        int c = d.signum();
        return c == 0 ? ZERO : c > 0 ? norm(x.s, e, d) : norm(sy, e, d.negate());
    }

    public static Value RAdd(Value x, Value y) { RV b = dec(y); return add(dec(x), b, b.s); }
    public static Value RSub(Value x, Value y) { RV b = dec(y); return add(dec(x), b, -b.s); }
    public static Value RMul(Value x, Value y) {
        RV a = dec(x), b = dec(y);
        if (a.s == 0 || b.s == 0) return ZERO;
        return norm(a.s * b.s, a.e + b.e, a.m.multiply(b.m));
    }
    public static Value RDiv(Value x, Value y) {
        RV a = dec(x), b = dec(y);
        if (b.s == 0) throw new RuntimeException("division by zero in the specification: " + x + " / " + y);
        if (a.s == 0) return ZERO;
        int sh = K + 1 + limbs(b) - limbs(a);
        return norm(a.s * b.s, a.e - sh - b.e, a.m.shiftLeft(BITS * sh).divide(b.m));
    }
    public static Value RNeg(Value x) { RV a = dec(x); return a.s == 0 ? ZERO : norm(-a.s, a.e, a.m); }
    public static Value RCmp(Value x, Value y) {
        RV a = dec(x), b = dec(y);
        int r;
        if (a.s != b.s) r = a.s < b.s ? -1 : 1;
        else if (a.s == 0) r = 0;
        else {
            int ta = a.e + limbs(a), tb = b.e + limbs(b);
            if (ta != tb) r = ta > tb ? a.s : -a.s;
            else { int e = Math.min(a.e, b.e); r = a.s * a.m.shiftLeft(BITS * (a.e - e)).compareTo(b.m.shiftLeft(BITS * (b.e - e))); }
        }
        return IntValue.gen(r);
    }
    public static Value RInt(Value n) {
        int v = ((IntValue) n).val;
        return v == 0 ? ZERO : norm(v > 0 ? 1 : -1, 0, BigInteger.valueOf(Math.abs((long) v)));
    }
    public static Value RFloor(Value x) {
        RV a = dec(x);
        if (a.s == 0) return IntValue.gen(0);
        BigInteger ip = a.e >= 0 ? a.m.shiftLeft(BITS * a.e) : a.m.shiftRight(-BITS * a.e);
        if (ip.bitLength() > 30) throw new RuntimeException("RFloor out of range: " + x);
        int v = ip.intValue();
        return IntValue.gen(a.s > 0 ? v : a.e >= 0 ? -v : -v - 1);
    }
}
