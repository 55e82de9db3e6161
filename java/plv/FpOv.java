package plv;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Implementations of the field operators of Fp.tla and the polynomial operators of Poly.tla. */
public class FpOv {
    private static final StringValue BIG = new StringValue("big");
    private static final StringValue P = new StringValue("p");

    /** A field: prime as long (small) or as BigInteger. */
    private static final class Fld {
        final boolean big;
        final long p;
        final BigInteger bp;

        Fld(Value f) {
            final RecordValue r = (RecordValue) f.toRcd();
            big = ((BoolValue) r.select(BIG)).val;
            final Value v = (Value) r.select(P);
            p = big ? 0 : ((IntValue) v).val;
            bp = big ? BigNatOv.big(v) : null;
        }
    }

    private static long s(Value v) {
        return ((IntValue) v).val;
    }

    private static Value[] seq(Value v) {
        return ((TupleValue) v.toTuple()).elems;
    }

    private static long[] smalls(Value v) {
        final Value[] e = seq(v);
        final long[] r = new long[e.length];
        for (int i = 0; i < e.length; i++) r[i] = s(e[i]);
        return r;
    }

    private static BigInteger[] bigs(Value v) {
        final Value[] e = seq(v);
        final BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < e.length; i++) r[i] = BigNatOv.big(e[i]);
        return r;
    }

    private static Value out(long[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen((int) a[i]);
        return new TupleValue(e);
    }

    private static Value out(BigInteger[] a) {
        final Value[] e = new Value[a.length];
        for (int i = 0; i < e.length; i++) e[i] = BigNatOv.val(a[i]);
        return new TupleValue(e);
    }

    private static Value i(long x) {
        return IntValue.gen((int) x);
    }

    @TLAPlusOperator(identifier = "FAdd", module = "Fp", warn = false)
    public static Value fadd(Value F, Value a, Value b) {
        final Fld f = new Fld(F);
        return f.big ? BigNatOv.val(BigNatOv.big(a).add(BigNatOv.big(b)).mod(f.bp)) : i((s(a) + s(b)) % f.p);
    }

    @TLAPlusOperator(identifier = "FSub", module = "Fp", warn = false)
    public static Value fsub(Value F, Value a, Value b) {
        final Fld f = new Fld(F);
        return f.big ? BigNatOv.val(BigNatOv.big(a).subtract(BigNatOv.big(b)).mod(f.bp))
                : i(Math.floorMod(s(a) + f.p - s(b), f.p));
    }

    @TLAPlusOperator(identifier = "FMul", module = "Fp", warn = false)
    public static Value fmul(Value F, Value a, Value b) {
        final Fld f = new Fld(F);
        return f.big ? BigNatOv.val(BigNatOv.big(a).multiply(BigNatOv.big(b)).mod(f.bp)) : i((s(a) * s(b)) % f.p);
    }

    @TLAPlusOperator(identifier = "PowSmall", module = "Fp", warn = false)
    public static Value powSmall(Value a, Value e, Value p) {
        return i(BigInteger.valueOf(s(a)).modPow(BigInteger.valueOf(s(e)), BigInteger.valueOf(s(p))).longValue());
    }

    @TLAPlusOperator(identifier = "FSum", module = "Fp", warn = false)
    public static Value fsum(Value F, Value a) {
        final Fld f = new Fld(F);
        if (f.big) {
            BigInteger r = BigInteger.ZERO;
            for (BigInteger x : bigs(a)) r = r.add(x).mod(f.bp);
            return BigNatOv.val(r);
        }
        long r = 0;
        for (long x : smalls(a)) r = (r + x) % f.p;
        return i(r);
    }

    @TLAPlusOperator(identifier = "FInner", module = "Fp", warn = false)
    public static Value finner(Value F, Value a, Value b, Value from) {
        final Fld f = new Fld(F);
        final int k = (int) s(from) - 1;
        if (f.big) {
            final BigInteger[] x = bigs(a), y = bigs(b);
            BigInteger r = BigInteger.ZERO;
            for (int j = k; j < x.length; j++) r = r.add(x[j].multiply(y[j])).mod(f.bp);
            return BigNatOv.val(r);
        }
        final long[] x = smalls(a), y = smalls(b);
        long r = 0;
        for (int j = k; j < x.length; j++) r = (r + x[j] * y[j]) % f.p;
        return i(r);
    }

    @TLAPlusOperator(identifier = "FPowersFrom", module = "Fp", warn = false)
    public static Value fpowersFrom(Value F, Value x, Value n, Value c) {
        final Fld f = new Fld(F);
        final int k = (int) s(n);
        if (f.big) {
            final BigInteger[] r = new BigInteger[k];
            BigInteger y = BigNatOv.big(c);
            final BigInteger b = BigNatOv.big(x);
            for (int j = 0; j < k; j++) {
                r[j] = y;
                y = y.multiply(b).mod(f.bp);
            }
            return out(r);
        }
        final long[] r = new long[k];
        long y = s(c);
        for (int j = 0; j < k; j++) {
            r[j] = y;
            y = y * s(x) % f.p;
        }
        return out(r);
    }

    @TLAPlusOperator(identifier = "FHorner", module = "Fp", warn = false)
    public static Value fhorner(Value F, Value a, Value x, Value from) {
        final Fld f = new Fld(F);
        final int k = (int) s(from) - 1;
        if (f.big) {
            final BigInteger[] c = bigs(a);
            final BigInteger b = BigNatOv.big(x);
            BigInteger r = BigInteger.ZERO;
            for (int j = c.length - 1; j >= k; j--) r = r.multiply(b).add(c[j]).mod(f.bp);
            return BigNatOv.val(r);
        }
        final long[] c = smalls(a);
        final long b = s(x);
        long r = 0;
        for (int j = c.length - 1; j >= k; j--) r = (r * b + c[j]) % f.p;
        return i(r);
    }

    @TLAPlusOperator(identifier = "PMul", module = "Poly", warn = false)
    public static Value pmul(Value F, Value a, Value b) {
        final Fld f = new Fld(F);
        if (f.big) {
            final BigInteger[] x = bigs(a), y = bigs(b);
            if (x.length == 0 || y.length == 0) return new TupleValue(new Value[0]);
            final BigInteger[] r = new BigInteger[x.length + y.length - 1];
            java.util.Arrays.fill(r, BigInteger.ZERO);
            for (int j = 0; j < x.length; j++)
                if (x[j].signum() != 0)
                    for (int k = 0; k < y.length; k++) r[j + k] = r[j + k].add(x[j].multiply(y[k]));
            for (int j = 0; j < r.length; j++) r[j] = r[j].mod(f.bp);
            return out(r);
        }
        final long[] x = smalls(a), y = smalls(b);
        if (x.length == 0 || y.length == 0) return new TupleValue(new Value[0]);
        final long[] r = new long[x.length + y.length - 1];
        for (int j = 0; j < x.length; j++)
            for (int k = 0; k < y.length; k++) r[j + k] = (r[j + k] + x[j] * y[k]) % f.p;
        return out(r);
    }

    @TLAPlusOperator(identifier = "EvalOn", module = "Poly", warn = false)
    public static Value evalOn(Value F, Value a, Value w, Value nn) {
        final Fld f = new Fld(F);
        final int n = (int) s(nn);
        if (f.big) {
            final BigInteger[] c = bigs(a);
            final BigInteger g = BigNatOv.big(w);
            final BigInteger[] r = new BigInteger[n];
            BigInteger x = BigInteger.ONE;
            for (int j = 0; j < n; j++) {
                BigInteger y = BigInteger.ZERO;
                for (int k = c.length - 1; k >= 0; k--) y = y.multiply(x).add(c[k]).mod(f.bp);
                r[j] = y;
                x = x.multiply(g).mod(f.bp);
            }
            return out(r);
        }
        final long[] c = smalls(a);
        final long g = s(w);
        final long[] r = new long[n];
        long x = 1;
        for (int j = 0; j < n; j++) {
            long y = 0;
            for (int k = c.length - 1; k >= 0; k--) y = (y * x + c[k]) % f.p;
            r[j] = y;
            x = x * g % f.p;
        }
        return out(r);
    }
}
