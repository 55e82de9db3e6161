package plv;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Implementations of the point operators of Curve.tla. */
public class CurveOv {
    private static final StringValue BIG = new StringValue("big");
    private static final StringValue P = new StringValue("p");
    private static final StringValue F = new StringValue("F");
    private static final StringValue A = new StringValue("A");
    private static final StringValue S = new StringValue("S");

    private static boolean isBig(Value f) {
        return ((BoolValue) ((RecordValue) f.toRcd()).select(BIG)).val;
    }

    private static BigInteger num(boolean big, Value v) {
        return big ? BigNatOv.big(v) : BigInteger.valueOf(((IntValue) v).val);
    }

    private static final class Crv {
        final boolean big, sbig;
        final BigInteger p, a;

        Crv(Value e) {
            final RecordValue r = (RecordValue) e.toRcd();
            final Value f = (Value) r.select(F);
            big = isBig(f);
            p = num(big, (Value) ((RecordValue) f.toRcd()).select(P));
            a = num(big, (Value) r.select(A));
            sbig = isBig((Value) r.select(S));
        }

        BigInteger[] pt(Value v) {
            final Value[] e = ((TupleValue) v.toTuple()).elems;
            return e.length == 0 ? null : new BigInteger[] {num(big, e[0]), num(big, e[1])};
        }

        Value out(BigInteger[] q) {
            if (q == null) return new TupleValue(new Value[0]);
            final Value[] e = new Value[2];
            for (int i = 0; i < 2; i++) e[i] = big ? BigNatOv.val(q[i]) : IntValue.gen(q[i].intValue());
            return new TupleValue(e);
        }

        BigInteger[] slope(BigInteger l, BigInteger[] x, BigInteger[] y) {
            final BigInteger r = l.multiply(l).subtract(x[0]).subtract(y[0]).mod(p);
            return new BigInteger[] {r, l.multiply(x[0].subtract(r)).subtract(x[1]).mod(p)};
        }

        BigInteger[] dbl(BigInteger[] x) {
            if (x == null || x[1].signum() == 0) return null;
            final BigInteger n = x[0].multiply(x[0]).multiply(BigInteger.valueOf(3)).add(a);
            return slope(n.multiply(x[1].shiftLeft(1).modInverse(p)).mod(p), x, x);
        }

        BigInteger[] add(BigInteger[] x, BigInteger[] y) {
            if (x == null) return y;
            if (y == null) return x;
            if (x[0].equals(y[0])) return x[1].equals(y[1]) ? dbl(x) : null;
            final BigInteger n = y[1].subtract(x[1]);
            return slope(n.multiply(y[0].subtract(x[0]).mod(p).modInverse(p)).mod(p), x, y);
        }

        // Jacobian coordinates: (X / Z^2, Y / Z^3); null is infinity
        BigInteger[] jdbl(BigInteger[] q) {
            if (q == null || q[1].signum() == 0) return null;
            final BigInteger yy = q[1].multiply(q[1]).mod(p);
            final BigInteger s = q[0].multiply(yy).shiftLeft(2).mod(p);
            final BigInteger zz = q[2].multiply(q[2]).mod(p);
            BigInteger m = q[0].multiply(q[0]).multiply(BigInteger.valueOf(3));
            if (a.signum() != 0) m = m.add(a.multiply(zz.multiply(zz).mod(p)));
            m = m.mod(p);
            final BigInteger x = m.multiply(m).subtract(s.shiftLeft(1)).mod(p);
            final BigInteger y = m.multiply(s.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(p);
            return new BigInteger[] {x, y, q[1].multiply(q[2]).shiftLeft(1).mod(p)};
        }

        BigInteger[] jadd(BigInteger[] q, BigInteger[] r) {
            if (q == null) return r;
            if (r == null) return q;
            final BigInteger z1 = q[2].multiply(q[2]).mod(p), z2 = r[2].multiply(r[2]).mod(p);
            final BigInteger u1 = q[0].multiply(z2).mod(p), u2 = r[0].multiply(z1).mod(p);
            final BigInteger s1 = q[1].multiply(z2).mod(p).multiply(r[2]).mod(p);
            final BigInteger s2 = r[1].multiply(z1).mod(p).multiply(q[2]).mod(p);
            if (u1.equals(u2)) return s1.equals(s2) ? jdbl(q) : null;
            final BigInteger h = u2.subtract(u1), g = s2.subtract(s1);
            final BigInteger hh = h.multiply(h).mod(p), hhh = hh.multiply(h).mod(p), v = u1.multiply(hh).mod(p);
            final BigInteger x = g.multiply(g).subtract(hhh).subtract(v.shiftLeft(1)).mod(p);
            final BigInteger y = g.multiply(v.subtract(x)).subtract(s1.multiply(hhh)).mod(p);
            return new BigInteger[] {x, y, q[2].multiply(r[2]).mod(p).multiply(h).mod(p)};
        }

        /** sum of s[i] x[i], by windows of digits, collecting the points of each digit. */
        BigInteger[] msm(BigInteger[] s, BigInteger[][] x) {
            int bits = 0;
            for (BigInteger k : s) bits = Math.max(bits, k.bitLength());
            final int w = s.length < 4 ? 2 : s.length < 12 ? 3 : s.length < 40 ? 4 : s.length < 150 ? 6 : 7;
            BigInteger[] r = null;
            for (int lo = (bits + w - 1) / w * w - w; lo >= 0; lo -= w) {
                for (int i = 0; i < w; i++) r = jdbl(r);
                final BigInteger[][] at = new BigInteger[1 << w][];
                for (int i = 0; i < s.length; i++) {
                    if (x[i] == null) continue;
                    int d = 0;
                    for (int b = w - 1; b >= 0; b--) d = 2 * d + (s[i].testBit(lo + b) ? 1 : 0);
                    if (d != 0) at[d] = jadd(at[d], new BigInteger[] {x[i][0], x[i][1], BigInteger.ONE});
                }
                BigInteger[] run = null;
                for (int d = (1 << w) - 1; d > 0; d--) {
                    run = jadd(run, at[d]);
                    r = jadd(r, run);
                }
            }
            if (r == null) return null;
            final BigInteger zi = r[2].modInverse(p), z2 = zi.multiply(zi).mod(p);
            return new BigInteger[] {r[0].multiply(z2).mod(p), r[1].multiply(z2).mod(p).multiply(zi).mod(p)};
        }
    }

    @TLAPlusOperator(identifier = "CDbl", module = "Curve", warn = false)
    public static Value cdbl(Value e, Value x) {
        final Crv c = new Crv(e);
        return c.out(c.dbl(c.pt(x)));
    }

    @TLAPlusOperator(identifier = "CAdd", module = "Curve", warn = false)
    public static Value cadd(Value e, Value x, Value y) {
        final Crv c = new Crv(e);
        return c.out(c.add(c.pt(x), c.pt(y)));
    }

    @TLAPlusOperator(identifier = "CMulG", module = "Curve", warn = false)
    public static Value cmulg(Value e, Value g, Value s, Value x) {
        final Crv c = new Crv(e);
        return c.out(c.msm(new BigInteger[] {num(isBig(g), s)}, new BigInteger[][] {c.pt(x)}));
    }

    @TLAPlusOperator(identifier = "CSumFrom", module = "Curve", warn = false)
    public static Value csum(Value e, Value ps, Value i) {
        final Crv c = new Crv(e);
        final Value[] v = ((TupleValue) ps.toTuple()).elems;
        BigInteger[] r = null;
        for (int k = ((IntValue) i).val - 1; k < v.length; k++) r = c.add(r, c.pt(v[k]));
        return c.out(r);
    }

    @TLAPlusOperator(identifier = "CMsmFrom", module = "Curve", warn = false)
    public static Value cmsm(Value e, Value ss, Value ps, Value i) {
        final Crv c = new Crv(e);
        final Value[] v = ((TupleValue) ps.toTuple()).elems;
        final Value[] w = ((TupleValue) ss.toTuple()).elems;
        final int o = ((IntValue) i).val - 1;
        final BigInteger[] s = new BigInteger[v.length - o];
        final BigInteger[][] x = new BigInteger[v.length - o][];
        for (int k = 0; k < s.length; k++) {
            s[k] = num(c.sbig, w[k + o]);
            x[k] = c.pt(v[k + o]);
        }
        return c.out(c.msm(s, x));
    }
}
