package plv;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** BigInteger implementations of the operators of BigNat.tla. */
public class BigNatOv {
    static BigInteger big(Value v) {
        final Value t = v.toTuple();
        final Value[] e = ((TupleValue) t).elems;
        final byte[] out = new byte[(e.length * 3) / 2 + 2];
        // little-endian nibble triples -> big-endian bytes
        int acc = 0, nb = 0, pos = out.length - 1;
        for (int i = 0; i < e.length; i++) {
            acc |= ((IntValue) e[i]).val << nb;
            nb += 12;
            while (nb >= 8) {
                out[pos--] = (byte) acc;
                acc >>>= 8;
                nb -= 8;
            }
        }
        if (nb > 0) out[pos--] = (byte) acc;
        return new BigInteger(1, out);
    }

    static Value val(BigInteger n) {
        final int len = (n.bitLength() + 11) / 12;
        final Value[] e = new Value[len];
        final byte[] b = n.toByteArray();
        int acc = 0, nb = 0, pos = b.length - 1;
        for (int i = 0; i < len; i++) {
            while (nb < 12) {
                final int x = pos >= 0 ? (b[pos] & 0xff) : 0;
                pos--;
                acc |= x << nb;
                nb += 8;
            }
            e[i] = IntValue.gen(acc & 0xfff);
            acc >>>= 12;
            nb -= 12;
        }
        return new TupleValue(e);
    }

    @TLAPlusOperator(identifier = "Cmp", module = "BigNat", warn = false)
    public static Value cmp(Value a, Value b) {
        return IntValue.gen(big(a).compareTo(big(b)));
    }

    @TLAPlusOperator(identifier = "Add", module = "BigNat", warn = false)
    public static Value add(Value a, Value b) {
        return val(big(a).add(big(b)));
    }

    @TLAPlusOperator(identifier = "Sub", module = "BigNat", warn = false)
    public static Value sub(Value a, Value b) {
        return val(big(a).subtract(big(b)));
    }

    @TLAPlusOperator(identifier = "Mul", module = "BigNat", warn = false)
    public static Value mul(Value a, Value b) {
        return val(big(a).multiply(big(b)));
    }

    @TLAPlusOperator(identifier = "Mod", module = "BigNat", warn = false)
    public static Value mod(Value a, Value m) {
        return val(big(a).mod(big(m)));
    }

    @TLAPlusOperator(identifier = "Div", module = "BigNat", warn = false)
    public static Value div(Value a, Value m) {
        return val(big(a).divide(big(m)));
    }

    @TLAPlusOperator(identifier = "AddMod", module = "BigNat", warn = false)
    public static Value addMod(Value a, Value b, Value m) {
        return val(big(a).add(big(b)).mod(big(m)));
    }

    @TLAPlusOperator(identifier = "SubMod", module = "BigNat", warn = false)
    public static Value subMod(Value a, Value b, Value m) {
        return val(big(a).subtract(big(b)).mod(big(m)));
    }

    @TLAPlusOperator(identifier = "MulMod", module = "BigNat", warn = false)
    public static Value mulMod(Value a, Value b, Value m) {
        return val(big(a).multiply(big(b)).mod(big(m)));
    }

    @TLAPlusOperator(identifier = "PowMod", module = "BigNat", warn = false)
    public static Value powMod(Value a, Value e, Value m) {
        return val(big(a).modPow(big(e), big(m)));
    }

    @TLAPlusOperator(identifier = "InvMod", module = "BigNat", warn = false)
    public static Value invMod(Value a, Value m) {
        final BigInteger x = big(a).mod(big(m));
        return x.signum() == 0 ? val(x) : val(x.modInverse(big(m)));
    }
}
