// Native evaluation of the operators Add, Sub, Mul and DivMod of module BigNat (TLC operator overrides).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class BigNat {
    private static final int BITS = 10;

    private static BigInteger num(Value v) {
        Value[] limbs = ((TupleValue) v.toTuple()).elems;
        // pack the limbs into bytes, least significant first
        byte[] le = new byte[(limbs.length * BITS + 7) / 8 + 2];
        int bit = 0;
        for (Value l : limbs) {
            int x = ((IntValue) l).val << (bit & 7);
            for (int at = bit >> 3; x != 0; at++, x >>>= 8) {
                le[at] |= (byte) x;
            }
            bit += BITS;
        }
        byte[] be = new byte[le.length];
        for (int i = 0; i < le.length; i++) {
            be[be.length - 1 - i] = le[i];
        }
        return new BigInteger(1, be);
    }

    private static Value val(BigInteger n) {
        int k = (n.bitLength() + BITS - 1) / BITS;
        byte[] be = n.toByteArray();
        Value[] limbs = new Value[k];
        for (int i = 0; i < k; i++) {
            int bit = i * BITS, x = 0;
            for (int j = 0; j < 3; j++) {
                int at = be.length - 1 - (bit >> 3) - j;
                if (at >= 0) {
                    x |= (be[at] & 0xff) << (8 * j);
                }
            }
            limbs[i] = IntValue.gen((x >> (bit & 7)) & ((1 << BITS) - 1));
        }
        return new TupleValue(limbs);
    }

    public static Value Add(Value a, Value b) {
        return val(num(a).add(num(b)));
    }

    public static Value Sub(Value a, Value b) {
        return val(num(a).subtract(num(b)));
    }

    public static Value Mul(Value a, Value b) {
        return val(num(a).multiply(num(b)));
    }

    public static Value DivMod(Value a, Value b) {
        BigInteger[] r = num(a).divideAndRemainder(num(b));
        return new TupleValue(new Value[] {val(r[0]), val(r[1])});
    }
}
