// TLC overrides for module BigInt (see spec/BigInt.tla for the definitions they stand for;
// spec/BigIntCheck.tla compares the two).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigInt {
    private static final int W = 15, MASK = (1 << W) - 1;

    private static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("BigInt: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    static BigInteger in(Value v) {
        Value[] e = elems(v);
        int s = ((IntValue) e[0]).val;
        if (s == 0) {
            if (e.length != 1) throw new RuntimeException("BigInt: not canonical: " + v);
            return BigInteger.ZERO;
        }
        int nd = e.length - 1;
        if (nd == 0 || ((IntValue) e[nd]).val == 0 || (s != 1 && s != -1))
            throw new RuntimeException("BigInt: not canonical: " + v);
        if (nd <= 4) {
            long r = 0;
            for (int i = nd; i >= 1; i--) r = (r << W) | ((IntValue) e[i]).val;
            return BigInteger.valueOf(s * r);
        }
        byte[] m = new byte[(nd * W + 7) / 8 + 1]; // little-endian, reversed below
        long acc = 0; int bits = 0, p = 0;
        for (int i = 1; i <= nd; i++) {
            acc |= ((long) ((IntValue) e[i]).val) << bits; bits += W;
            while (bits >= 8) { m[p++] = (byte) acc; acc >>>= 8; bits -= 8; }
        }
        if (p < m.length) m[p] = (byte) acc;
        for (int i = 0, j = m.length - 1; i < j; i++, j--) { byte t = m[i]; m[i] = m[j]; m[j] = t; }
        return new BigInteger(s, m);
    }

    static Value out(BigInteger x) {
        int s = x.signum();
        if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
        BigInteger a = x.abs();
        int nd = (a.bitLength() + W - 1) / W;
        Value[] e = new Value[nd + 1];
        e[0] = IntValue.gen(s);
        byte[] m = a.toByteArray();
        long acc = 0; int bits = 0, d = 1;
        for (int i = m.length - 1; i >= 0 && d <= nd; i--) {
            acc |= (m[i] & 0xffL) << bits; bits += 8;
            while (bits >= W && d <= nd) { e[d++] = IntValue.gen((int) (acc & MASK)); acc >>>= W; bits -= W; }
        }
        if (d <= nd) e[d] = IntValue.gen((int) (acc & MASK));
        return new TupleValue(e);
    }

    static BigInteger[] vin(Value v) {
        Value[] e = elems(v);
        BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < e.length; i++) r[i] = in(e[i]);
        return r;
    }

    static Value vout(BigInteger[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = out(a[i]);
        return new TupleValue(e);
    }

    private static BigInteger[] divMod(BigInteger a, BigInteger b) {
        if (b.signum() <= 0) throw new RuntimeException("BigInt: divisor not positive: " + b);
        BigInteger[] qr = a.divideAndRemainder(b);
        if (qr[1].signum() < 0) { qr[0] = qr[0].subtract(BigInteger.ONE); qr[1] = qr[1].add(b); }
        return qr;
    }

    private static BigInteger center(BigInteger a, BigInteger m) {
        BigInteger r = divMod(a, m)[1];
        return r.shiftLeft(1).compareTo(m) >= 0 ? r.subtract(m) : r;
    }

    private static void same(BigInteger[] a, BigInteger[] b) {
        if (a.length != b.length) throw new RuntimeException("BigInt: vectors of different length");
    }

    public static Value BI(Value n) { return out(BigInteger.valueOf(((IntValue) n).val)); }
    public static Value BToInt(Value a) { return IntValue.gen(in(a).intValueExact()); }
    public static Value BNeg(Value a) { return out(in(a).negate()); }
    public static Value BAbs(Value a) { return out(in(a).abs()); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value BAdd(Value a, Value b) { return out(in(a).add(in(b))); }
    public static Value BSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    public static Value BMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    public static Value BDiv(Value a, Value b) { return out(divMod(in(a), in(b))[0]); }
    public static Value BMod(Value a, Value b) { return out(divMod(in(a), in(b))[1]); }
    public static Value BPow2(Value k) { return out(BigInteger.ONE.shiftLeft(((IntValue) k).val)); }
    public static Value BPowMod(Value a, Value e, Value m) { return out(in(a).modPow(in(e), in(m))); }

    public static Value BDot(Value a, Value b) {
        BigInteger[] x = vin(a), y = vin(b); same(x, y);
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < x.length; i++) s = s.add(x[i].multiply(y[i]));
        return out(s);
    }
    public static Value BSum(Value a) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger x : vin(a)) s = s.add(x);
        return out(s);
    }
    public static Value VAdd(Value a, Value b) {
        BigInteger[] x = vin(a), y = vin(b); same(x, y);
        for (int i = 0; i < x.length; i++) x[i] = x[i].add(y[i]);
        return vout(x);
    }
    public static Value VSub(Value a, Value b) {
        BigInteger[] x = vin(a), y = vin(b); same(x, y);
        for (int i = 0; i < x.length; i++) x[i] = x[i].subtract(y[i]);
        return vout(x);
    }
    public static Value VNeg(Value a) {
        BigInteger[] x = vin(a);
        for (int i = 0; i < x.length; i++) x[i] = x[i].negate();
        return vout(x);
    }
    public static Value VScale(Value a, Value k) {
        BigInteger[] x = vin(a); BigInteger y = in(k);
        for (int i = 0; i < x.length; i++) x[i] = x[i].multiply(y);
        return vout(x);
    }
    public static Value VMod(Value a, Value m) {
        BigInteger[] x = vin(a); BigInteger y = in(m);
        for (int i = 0; i < x.length; i++) x[i] = divMod(x[i], y)[1];
        return vout(x);
    }
    public static Value VDiv(Value a, Value m) {
        BigInteger[] x = vin(a); BigInteger y = in(m);
        for (int i = 0; i < x.length; i++) x[i] = divMod(x[i], y)[0];
        return vout(x);
    }
    public static Value BCenter(Value a, Value m) { return out(center(in(a), in(m))); }
    public static Value VCenter(Value a, Value m) {
        BigInteger[] x = vin(a); BigInteger y = in(m);
        for (int i = 0; i < x.length; i++) x[i] = center(x[i], y);
        return vout(x);
    }
    public static Value VMaxAbs(Value a) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger x : vin(a)) s = s.max(x.abs());
        return out(s);
    }
    public static Value VSumAbs(Value a) {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger x : vin(a)) s = s.add(x.abs());
        return out(s);
    }
    private static BigInteger pack(BigInteger[] x, int w) {      // sum of x[i] * 2^(8*w*i), |x[i]| < 2^(8w-1)
        byte[] p = new byte[x.length * w + 1], m = new byte[x.length * w + 1];
        for (int i = 0; i < x.length; i++) {
            byte[] b = x[i].abs().toByteArray();
            byte[] d = x[i].signum() >= 0 ? p : m;
            for (int k = 0; k < b.length && k < w; k++) d[d.length - 1 - (i * w + k)] = b[b.length - 1 - k];
        }
        return new BigInteger(p).subtract(new BigInteger(m));
    }
    static BigInteger[] negacyclic(BigInteger[] x, BigInteger[] y) {
        int n = x.length, nx = 0, ny = 0, bits = 0, by = 0;
        BigInteger[] r = new BigInteger[n];
        java.util.Arrays.fill(r, BigInteger.ZERO);
        for (BigInteger v : x) { if (v.signum() != 0) nx++; bits = Math.max(bits, v.bitLength()); }
        for (BigInteger v : y) { if (v.signum() != 0) ny++; by = Math.max(by, v.bitLength()); }
        if ((long) nx * ny <= 20L * n || n < 64) {
            for (int i = 0; i < n; i++) {
                if (x[i].signum() == 0) continue;
                for (int j = 0; j < n; j++) {
                    if (y[j].signum() == 0) continue;
                    BigInteger p = x[i].multiply(y[j]);
                    if (i + j < n) r[i + j] = r[i + j].add(p); else r[i + j - n] = r[i + j - n].subtract(p);
                }
            }
            return r;
        }
        // one multiplication of packed integers
        int w = (bits + by + 40) / 8;
        int len = 2 * n;
        BigInteger[] half = new BigInteger[len];
        java.util.Arrays.fill(half, BigInteger.ONE.shiftLeft(8 * w - 1).subtract(BigInteger.ONE));
        BigInteger off = pack(half, w);
        BigInteger prod = pack(x, w).multiply(pack(y, w)).add(off);
        byte[] b = prod.toByteArray();                            // nonnegative
        for (int i = 0; i < len; i++) {
            byte[] d = new byte[w + 1];
            for (int k = 0; k < w; k++) { int q = b.length - 1 - (i * w + k); d[w - k] = q >= 0 ? b[q] : 0; }
            BigInteger c = new BigInteger(d).subtract(half[0]);
            if (i < n) r[i] = r[i].add(c); else r[i - n] = r[i - n].subtract(c);
        }
        return r;
    }
    public static Value VNegacyclic(Value a, Value b) {
        BigInteger[] x = vin(a), y = vin(b); same(x, y);
        return vout(negacyclic(x, y));
    }
    public static Value VEval(Value a, Value x, Value m) {
        BigInteger[] c = vin(a); BigInteger y = in(x), q = in(m), r = BigInteger.ZERO;
        for (int i = c.length - 1; i >= 0; i--) r = divMod(c[i].add(y.multiply(r)), q)[1];
        return out(r);
    }
    public static Value VAuto(Value a, Value g) {
        Value[] x = elems(a); int n = x.length; long m = 2L * n;
        long gg = (((long) ((IntValue) g).val) % m + m) % m, j = 0;
        if (gg % 2 == 0) throw new RuntimeException("BigInt: VAuto with even exponent");
        Value[] r = new Value[n];
        for (int i = 0; i < n; i++, j = (j + gg) % m) {
            if (j < n) r[(int) j] = x[i]; else r[(int) (j - n)] = out(in(x[i]).negate());
        }
        return new TupleValue(r);
    }
    public static Value BOr(Value a, Value b) { return out(in(a).or(in(b))); }
    public static Value BAnd(Value a, Value b) { return out(in(a).and(in(b))); }
    public static Value VOr(Value a, Value b) {
        BigInteger[] x = vin(a), y = vin(b); same(x, y);
        for (int i = 0; i < x.length; i++) x[i] = x[i].or(y[i]);
        return vout(x);
    }
    public static Value VAnd(Value a, Value b) {
        BigInteger[] x = vin(a), y = vin(b); same(x, y);
        for (int i = 0; i < x.length; i++) x[i] = x[i].and(y[i]);
        return vout(x);
    }
    public static Value BSqrt(Value a) {
        BigInteger x = in(a);
        if (x.signum() < 0) throw new RuntimeException("BigInt: root of a negative number");
        return out(x.sqrt());
    }
    // operands of repeated sums are kept in decoded form
    private static final java.util.Map<Value, BigInteger[]> decoded = java.util.Collections.synchronizedMap(new java.util.IdentityHashMap<>());
    private static BigInteger[] vinKept(Value v) {
        BigInteger[] r = decoded.get(v);
        if (r == null) { if (decoded.size() > 64) decoded.clear(); r = vin(v); decoded.put(v, r); }
        return r;
    }
    public static Value BDotAt(Value a, Value t, Value x, Value g) {
        BigInteger[] c = vinKept(a), y = vinKept(t); Value[] e = elems(x); long gg = ((IntValue) g).val;
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < c.length; i++) {
            if (c[i].signum() == 0) continue;
            int k = (int) Math.floorMod(((IntValue) e[i]).val * gg, (long) y.length);
            s = s.add(c[i].multiply(y[k]));
        }
        return out(s);
    }
}
