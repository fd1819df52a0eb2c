package vnum;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC evaluation of the operators of Num.tla (and PMul of Curve.tla) on TLC integers and hexadecimal strings. */
public class NumOverrides implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { NumOverrides.class }; }

    static boolean big(Value... vs) { for (Value v : vs) if (v instanceof StringValue) return true; return false; }

    static BigInteger n(Value v) {
        if (v instanceof IntValue) return BigInteger.valueOf(((IntValue) v).val);
        if (v instanceof StringValue) return new BigInteger(((StringValue) v).val.toString(), 16);
        throw new IllegalArgumentException("not a numeral: " + v);
    }
    static Value mk(BigInteger b, boolean big) {
        if (big) return new StringValue(b.toString(16));
        return IntValue.gen(b.intValueExact());
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int i(Value v) { return n(v).intValueExact(); }

    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value NAdd(Value a, Value b) { return mk(n(a).add(n(b)), big(a, b)); }
    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value NSub(Value a, Value b) { return mk(n(a).subtract(n(b)), big(a, b)); }
    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value NMul(Value a, Value b) {
        if (!big(a, b)) { // products that leave the 32-bit range must fail loudly
            return IntValue.gen(Math.multiplyExact(((IntValue) a).val, ((IntValue) b).val));
        }
        return mk(n(a).multiply(n(b)), true);
    }
    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value NDiv(Value a, Value b) {
        BigInteger[] qr = n(a).divideAndRemainder(n(b));
        if (n(b).signum() <= 0) throw new IllegalArgumentException("NDiv by non-positive");
        return mk(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0], big(a, b));
    }
    @TLAPlusOperator(identifier = "NMod", module = "Num", warn = false)
    public static Value NMod(Value a, Value m) { return mk(n(a).mod(n(m)), big(a, m)); }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value NEq(Value a, Value b) { return bool(n(a).equals(n(b))); }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value NLt(Value a, Value b) { return bool(n(a).compareTo(n(b)) < 0); }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value NLe(Value a, Value b) { return bool(n(a).compareTo(n(b)) <= 0); }
    @TLAPlusOperator(identifier = "NShl", module = "Num", warn = false)
    public static Value NShl(Value a, Value k) { return mk(n(a).shiftLeft(i(k)), big(a)); }
    @TLAPlusOperator(identifier = "NShr", module = "Num", warn = false)
    public static Value NShr(Value a, Value k) { return mk(n(a).shiftRight(i(k)), big(a)); }
    @TLAPlusOperator(identifier = "NBit", module = "Num", warn = false)
    public static Value NBit(Value a, Value k) { return IntValue.gen(n(a).testBit(i(k)) ? 1 : 0); }
    @TLAPlusOperator(identifier = "NBitLen", module = "Num", warn = false)
    public static Value NBitLen(Value a) { return IntValue.gen(n(a).bitLength()); }
    @TLAPlusOperator(identifier = "NPowMod", module = "Num", warn = false)
    public static Value NPowMod(Value a, Value e, Value m) { return mk(n(a).modPow(n(e), n(m)), big(a, e, m)); }
    @TLAPlusOperator(identifier = "NInvMod", module = "Num", warn = false)
    public static Value NInvMod(Value a, Value m) { return mk(n(a).modInverse(n(m)), big(a, m)); }
    @TLAPlusOperator(identifier = "NInt", module = "Num", warn = false)
    public static Value NInt(Value a) { return IntValue.gen(i(a)); }
    @TLAPlusOperator(identifier = "NStr", module = "Num", warn = false)
    public static Value NStr(Value a) { return mk(n(a), true); }

    @TLAPlusOperator(identifier = "NBytes", module = "Num", warn = false)
    public static Value NBytes(Value a) {
        BigInteger v = n(a);
        if (v.signum() < 0) throw new IllegalArgumentException("NBytes of a negative number");
        int len = (v.bitLength() + 7) / 8;
        byte[] raw = v.toByteArray();
        Value[] out = new Value[len];
        for (int k = 0; k < len; k++) out[k] = IntValue.gen(raw[raw.length - len + k] & 0xff);
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "NFromBytes", module = "Num", warn = false)
    public static Value NFromBytes(Value s) {
        Value[] el = tuple(s);
        byte[] mag = new byte[el.length];
        for (int k = 0; k < el.length; k++) mag[k] = (byte) ((IntValue) el[k]).val;
        return mk(new BigInteger(1, mag), true);
    }

    static Value[] tuple(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new IllegalArgumentException("not a sequence: " + v);
        return t.elems;
    }
    static Value field(Value rec, String f) {
        RecordValue r = (RecordValue) rec.toRcd();
        for (int k = 0; k < r.names.length; k++) if (r.names[k].toString().equals(f)) return r.values[k];
        throw new IllegalArgumentException("no field " + f);
    }

    /** k * P by Jacobian double-and-add, for any curve y^2 = x^3 + a x + b and any integer k (reduced modulo n). */
    @TLAPlusOperator(identifier = "PMul", module = "Curve", warn = false)
    public static Value PMul(Value k, Value P, Value c) {
        Value[] pt = tuple(P);
        if (pt.length == 0) return new TupleValue(new Value[0]);
        Value pv = field(c, "p");
        boolean big = big(pv);
        BigInteger p = n(pv), a = n(field(c, "a")), e = n(k).mod(n(field(c, "n")));
        BigInteger x = n(pt[0]), y = n(pt[1]);
        BigInteger[] R = null; // infinity
        for (int b = e.bitLength() - 1; b >= 0; b--) {
            R = dbl(R, a, p);
            if (e.testBit(b)) R = addAffine(R, x, y, a, p);
        }
        if (R == null) return new TupleValue(new Value[0]);
        BigInteger zi = R[2].modInverse(p), zi2 = zi.multiply(zi).mod(p);
        return new TupleValue(new Value[] { mk(R[0].multiply(zi2).mod(p), big),
                mk(R[1].multiply(zi2).mod(p).multiply(zi).mod(p), big) });
    }
    private static BigInteger[] dbl(BigInteger[] R, BigInteger a, BigInteger p) {
        if (R == null || R[1].signum() == 0) return null;
        BigInteger X = R[0], Y = R[1], Z = R[2];
        BigInteger Y2 = Y.multiply(Y).mod(p), S = X.multiply(Y2).shiftLeft(2).mod(p);
        BigInteger Z2 = Z.multiply(Z).mod(p);
        BigInteger M = X.multiply(X).multiply(BigInteger.valueOf(3)).add(a.multiply(Z2.multiply(Z2).mod(p))).mod(p);
        BigInteger X3 = M.multiply(M).subtract(S.shiftLeft(1)).mod(p);
        BigInteger Y3 = M.multiply(S.subtract(X3)).subtract(Y2.multiply(Y2).shiftLeft(3)).mod(p);
        BigInteger Z3 = Y.multiply(Z).shiftLeft(1).mod(p);
        return new BigInteger[] { X3, Y3, Z3 };
    }
    private static BigInteger[] addAffine(BigInteger[] R, BigInteger x, BigInteger y, BigInteger a, BigInteger p) {
        if (R == null) return new BigInteger[] { x, y, BigInteger.ONE };
        BigInteger X = R[0], Y = R[1], Z = R[2];
        BigInteger Z2 = Z.multiply(Z).mod(p);
        BigInteger U = x.multiply(Z2).mod(p), S = y.multiply(Z2).mod(p).multiply(Z).mod(p);
        BigInteger H = U.subtract(X).mod(p), r = S.subtract(Y).mod(p);
        if (H.signum() == 0) return r.signum() == 0 ? dbl(R, a, p) : null;
        BigInteger H2 = H.multiply(H).mod(p), H3 = H2.multiply(H).mod(p), V = X.multiply(H2).mod(p);
        BigInteger X3 = r.multiply(r).subtract(H3).subtract(V.shiftLeft(1)).mod(p);
        BigInteger Y3 = r.multiply(V.subtract(X3)).subtract(Y.multiply(H3)).mod(p);
        BigInteger Z3 = Z.multiply(H).mod(p);
        return new BigInteger[] { X3, Y3, Z3 };
    }

    /** Value of the polynomial with coefficients cs at x. */
    @TLAPlusOperator(identifier = "Eval", module = "ShamirM", warn = false)
    public static Value Eval(Value cs, Value x, Value q) {
        BigInteger m = n(q), r = BigInteger.ZERO, at = n(x);
        Value[] c = tuple(cs);
        for (int k = c.length - 1; k >= 0; k--) r = r.multiply(at).add(n(c[k])).mod(m);
        return mk(r, big(q) || big(x));
    }
    /** Coefficients of the interpolating polynomial (Newton form, expanded). */
    @TLAPlusOperator(identifier = "Coefficients", module = "ShamirM", warn = false)
    public static Value Coefficients(Value s, Value q) {
        BigInteger m = n(q);
        Value[] pts = tuple(s);
        int t = pts.length;
        BigInteger[] x = new BigInteger[t], d = new BigInteger[t];
        for (int k = 0; k < t; k++) { Value[] pt = tuple(pts[k]); x[k] = n(pt[0]); d[k] = n(pt[1]); }
        for (int k = 1; k < t; k++)
            for (int j = t - 1; j >= k; j--)
                d[j] = d[j].subtract(d[j - 1]).multiply(x[j].subtract(x[j - k]).mod(m).modInverse(m)).mod(m);
        BigInteger[] r = new BigInteger[t];
        java.util.Arrays.fill(r, BigInteger.ZERO);
        for (int k = t - 1; k >= 0; k--) {
            for (int j = t - 1; j >= 0; j--)
                r[j] = (j > 0 ? r[j - 1] : BigInteger.ZERO).subtract(r[j].multiply(x[k])).mod(m);
            r[0] = r[0].add(d[k]).mod(m);
        }
        Value[] out = new Value[t];
        for (int k = 0; k < t; k++) out[k] = mk(r[k], big(q));
        return new TupleValue(out);
    }
    /** Outcome -> number of points of the domain mapped to it. */
    @TLAPlusOperator(identifier = "Weights", module = "Dist", warn = false)
    public static Value Weights(Value f) {
        FcnRcdValue g = (FcnRcdValue) f.toFcnRcd();
        java.util.TreeMap<Value, Integer> w = new java.util.TreeMap<>();
        for (Value v : g.values) { v.normalize(); w.merge(v, 1, Integer::sum); }
        Value[] dom = w.keySet().toArray(new Value[0]), img = new Value[dom.length];
        for (int k = 0; k < dom.length; k++) img[k] = IntValue.gen(w.get(dom[k]));
        return new FcnRcdValue(dom, img, true);
    }

    private static boolean[][] bits(Value vs) {
        Value[] el = tuple(vs);
        boolean[][] out = new boolean[el.length][];
        for (int i = 0; i < el.length; i++) {
            BigInteger v = n(el[i]);
            out[i] = new boolean[Math.max(v.bitLength(), 1)];
            for (int k = 0; k < out[i].length; k++) out[i][k] = v.testBit(k);
        }
        return out;
    }
    private static boolean at(boolean[] b, int k) { return k < b.length && b[k]; }
    @TLAPlusOperator(identifier = "BitCounts", module = "Dist", warn = false)
    public static Value BitCounts(Value vs, Value w) {
        boolean[][] b = bits(vs);
        int n = ((IntValue) w).val;
        Value[] ones = new Value[n], same = new Value[n];
        for (int k = 0; k < n; k++) {
            int o = 0, s = 0;
            for (int i = 0; i < b.length; i++) {
                if (at(b[i], k)) o++;
                if (i > 0 && at(b[i], k) == at(b[i - 1], k)) s++;
            }
            ones[k] = IntValue.gen(o);
            same[k] = IntValue.gen(s);
        }
        return new TupleValue(new Value[] {new TupleValue(ones), new TupleValue(same)});
    }
    @TLAPlusOperator(identifier = "PairDev", module = "Dist", warn = false)
    public static Value PairDev(Value vs, Value ks) {
        boolean[][] b = bits(vs);
        SetEnumValue set = (SetEnumValue) ks.toSetEnum();
        set.normalize();
        int m = set.elems.size(), words = (b.length + 63) / 64, max = 0;
        long[][] col = new long[m][words];
        for (int j = 0; j < m; j++) {
            int k = ((IntValue) set.elems.elementAt(j)).val;
            for (int i = 0; i < b.length; i++) if (at(b[i], k)) col[j][i / 64] |= 1L << (i % 64);
        }
        for (int j = 0; j < m; j++) for (int k = j + 1; k < m; k++) {
            int differ = 0;
            for (int q = 0; q < words; q++) differ += Long.bitCount(col[j][q] ^ col[k][q]);
            max = Math.max(max, Math.abs(b.length - 2 * differ));
        }
        return IntValue.gen(max);
    }

    private static byte[] raw(Value s) {
        Value[] el = tuple(s);
        byte[] b = new byte[el.length];
        for (int k = 0; k < el.length; k++) b[k] = (byte) ((IntValue) el[k]).val;
        return b;
    }
    private static Value seq(byte[] b) {
        Value[] out = new Value[b.length];
        for (int k = 0; k < b.length; k++) out[k] = IntValue.gen(b[k] & 0xff);
        return new TupleValue(out);
    }
    @TLAPlusOperator(identifier = "AesBlock", module = "Sym", warn = false)
    public static Value AesBlock(Value key, Value in) throws Exception {
        javax.crypto.Cipher c = javax.crypto.Cipher.getInstance("AES/ECB/NoPadding");
        c.init(javax.crypto.Cipher.ENCRYPT_MODE, new javax.crypto.spec.SecretKeySpec(raw(key), "AES"));
        return seq(c.doFinal(raw(in)));
    }
    /** Counter mode assembled from single blocks. */
    @TLAPlusOperator(identifier = "Ctr", module = "Sym", warn = false)
    public static Value Ctr(Value key, Value iv, Value m) throws Exception {
        javax.crypto.Cipher c = javax.crypto.Cipher.getInstance("AES/ECB/NoPadding");
        c.init(javax.crypto.Cipher.ENCRYPT_MODE, new javax.crypto.spec.SecretKeySpec(raw(key), "AES"));
        byte[] ctr = raw(iv), x = raw(m);
        for (int k = 0; k < x.length; k += 16) {
            byte[] ks = c.doFinal(ctr);
            for (int j = 0; j < 16 && k + j < x.length; j++) x[k + j] ^= ks[j];
            for (int j = 15; j >= 0 && ++ctr[j] == 0; j--) { }
        }
        return seq(x);
    }
    /** CRC-32C register after the bytes, one bit at a time. */
    @TLAPlusOperator(identifier = "CrcBytes", module = "Sym", warn = false)
    public static Value CrcBytes(Value reg, Value s) {
        byte[] r0 = raw(reg), b = raw(s);
        int r = (r0[0] & 0xff) | (r0[1] & 0xff) << 8 | (r0[2] & 0xff) << 16 | (r0[3] & 0xff) << 24;
        for (byte x : b) {
            r ^= x & 0xff;
            for (int k = 0; k < 8; k++) r = (r & 1) != 0 ? (r >>> 1) ^ 0x82F63B78 : r >>> 1;
        }
        return seq(new byte[] { (byte) r, (byte) (r >>> 8), (byte) (r >>> 16), (byte) (r >>> 24) });
    }
}
