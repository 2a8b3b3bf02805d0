package verif;

import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Fast evaluation of the operators of spec/BigNat.tla, spec/Crypto.tla and spec/Curve.tla.
 * Each one computes the value its TLA+ definition has; spec/M_Base.tla compares them.
 */
public class Ops {
    static byte[] bytes(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        final byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            final int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            b[i] = (byte) x;
        }
        return b;
    }
    static final IntValue[] BYTE = new IntValue[256];
    static { for (int i = 0; i < 256; i++) BYTE[i] = IntValue.gen(i); }

    static Value seq(final byte[] b) {
        final Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = BYTE[b[i] & 0xff];
        return new TupleValue(e);
    }
    static BigInteger big(final Value v) { return new BigInteger(1, bytes(v)); }
    static byte[] raw(final BigInteger n) {
        if (n.signum() == 0) return new byte[0];
        final byte[] b = n.toByteArray();
        if (b[0] != 0) return b;
        final byte[] c = new byte[b.length - 1];
        System.arraycopy(b, 1, c, 0, c.length);
        return c;
    }
    static Value bn(final BigInteger n) { return seq(raw(n)); }
    static int num(final Value v) { return ((IntValue) v).val; }

    @TLAPlusOperator(identifier = "BNNorm", module = "BigNat", warn = false)
    public static Value BNNorm(final Value a) { return bn(big(a)); }
    @TLAPlusOperator(identifier = "BNOf", module = "BigNat", warn = false)
    public static Value BNOf(final Value a) { return bn(BigInteger.valueOf(num(a))); }
    @TLAPlusOperator(identifier = "BNInt", module = "BigNat", warn = false)
    public static Value BNInt(final Value a) { return IntValue.gen(big(a).intValueExact()); }
    @TLAPlusOperator(identifier = "BNCmp", module = "BigNat", warn = false)
    public static Value BNCmp(final Value a, final Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    @TLAPlusOperator(identifier = "BNAdd", module = "BigNat", warn = false)
    public static Value BNAdd(final Value a, final Value b) { return bn(big(a).add(big(b))); }
    @TLAPlusOperator(identifier = "BNSub", module = "BigNat", warn = false)
    public static Value BNSub(final Value a, final Value b) {
        final BigInteger r = big(a).subtract(big(b));
        if (r.signum() < 0) throw new RuntimeException("BNSub: negative result");
        return bn(r);
    }
    @TLAPlusOperator(identifier = "BNMul", module = "BigNat", warn = false)
    public static Value BNMul(final Value a, final Value b) { return bn(big(a).multiply(big(b))); }
    @TLAPlusOperator(identifier = "BNDiv", module = "BigNat", warn = false)
    public static Value BNDiv(final Value a, final Value b) { return bn(big(a).divide(big(b))); }
    @TLAPlusOperator(identifier = "BNMod", module = "BigNat", warn = false)
    public static Value BNMod(final Value a, final Value b) { return bn(big(a).mod(big(b))); }
    @TLAPlusOperator(identifier = "BNPowMod", module = "BigNat", warn = false)
    public static Value BNPowMod(final Value a, final Value e, final Value m) { return bn(big(a).modPow(big(e), big(m))); }
    @TLAPlusOperator(identifier = "BNInvMod", module = "BigNat", warn = false)
    public static Value BNInvMod(final Value a, final Value m) {
        final BigInteger x = big(a).mod(big(m));
        return bn(x.signum() == 0 ? x : x.modInverse(big(m)));
    }
    @TLAPlusOperator(identifier = "BNPow2", module = "BigNat", warn = false)
    public static Value BNPow2(final Value k) { return bn(BigInteger.ONE.shiftLeft(num(k))); }
    @TLAPlusOperator(identifier = "BNOfDigits", module = "BigNat", warn = false)
    public static Value BNOfDigits(final Value ds, final Value base) {
        final TupleValue t = (TupleValue) ds.toTuple();
        final BigInteger b = BigInteger.valueOf(num(base));
        BigInteger n = BigInteger.ZERO;
        for (final Value d : t.elems) n = n.multiply(b).add(BigInteger.valueOf(num(d)));
        return bn(n);
    }
    @TLAPlusOperator(identifier = "BNDigits", module = "BigNat", warn = false)
    public static Value BNDigits(final Value a, final Value base) {
        BigInteger n = big(a);
        final BigInteger b = BigInteger.valueOf(num(base));
        final java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        while (n.signum() > 0) {
            final BigInteger[] qr = n.divideAndRemainder(b);
            out.add(IntValue.gen(qr[1].intValue()));
            n = qr[0];
        }
        java.util.Collections.reverse(out);
        return new TupleValue(out.toArray(new Value[0]));
    }

    static byte[] digest(final String name, final byte[] data) {
        try { return MessageDigest.getInstance(name).digest(data); }
        catch (final java.security.NoSuchAlgorithmException e) { throw new RuntimeException(e); }
    }
    @TLAPlusOperator(identifier = "Sha256", module = "Crypto", warn = false)
    public static Value Sha256(final Value s) { return seq(digest("SHA-256", bytes(s))); }
    @TLAPlusOperator(identifier = "Sha512", module = "Crypto", warn = false)
    public static Value Sha512(final Value s) { return seq(digest("SHA-512", bytes(s))); }
    @TLAPlusOperator(identifier = "Sha1", module = "Crypto", warn = false)
    public static Value Sha1(final Value s) { return seq(digest("SHA-1", bytes(s))); }
    @TLAPlusOperator(identifier = "Ripemd160", module = "Crypto", warn = false)
    public static Value Ripemd160(final Value s) { return seq(verif.Ripemd.digest(bytes(s))); }

    // ---- points: << >> or << x, y >>
    static BigInteger[] point(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t.elems.length == 0) return null;
        return new BigInteger[] { big(t.elems[0]), big(t.elems[1]) };
    }
    static Value point(final BigInteger[] p) {
        if (p == null) return new TupleValue(new Value[0]);
        return new TupleValue(new Value[] { bn(p[0]), bn(p[1]) });
    }
    static BigInteger inv(final BigInteger x, final BigInteger p) {
        final BigInteger m = x.mod(p);
        return m.signum() == 0 ? m : m.modInverse(p);
    }
    static BigInteger[] add(final BigInteger p, final BigInteger a, final BigInteger[] P, final BigInteger[] Q) {
        if (P == null) return Q;
        if (Q == null) return P;
        final BigInteger l;
        if (P[0].equals(Q[0])) {
            if (P[1].add(Q[1]).mod(p).signum() == 0) return null;
            l = BigInteger.valueOf(3).multiply(P[0]).multiply(P[0]).add(a).multiply(inv(P[1].shiftLeft(1), p)).mod(p);
        } else {
            l = Q[1].subtract(P[1]).multiply(inv(Q[0].subtract(P[0]), p)).mod(p);
        }
        final BigInteger x = l.multiply(l).subtract(P[0]).subtract(Q[0]).mod(p);
        return new BigInteger[] { x, l.multiply(P[0].subtract(x)).subtract(P[1]).mod(p) };
    }
    @TLAPlusOperator(identifier = "PAdd", module = "Curve", warn = false)
    public static Value PAdd(final Value p, final Value a, final Value P, final Value Q) {
        return point(add(big(p), big(a), point(P), point(Q)));
    }
    @TLAPlusOperator(identifier = "PMul", module = "Curve", warn = false)
    public static Value PMul(final Value vp, final Value va, final Value vk, final Value vP) {
        final BigInteger p = big(vp), a = big(va), k = big(vk);
        final BigInteger[] P = point(vP);
        BigInteger[] r = null;
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = add(p, a, r, r);
            if (k.testBit(i)) r = add(p, a, r, P);
        }
        return point(r);
    }
}
