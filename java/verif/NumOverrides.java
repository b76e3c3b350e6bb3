package verif;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Arbitrary-precision implementation of spec/num-big/Num.tla. */
public class NumOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {NumOverrides.class};
    }

    private static BigInteger num(final Value v) {
        if (v instanceof StringValue) {
            return new BigInteger(((StringValue) v).val.toString());
        }
        throw new RuntimeException("Num: not a number: " + v);
    }

    private static StringValue str(final BigInteger b) {
        return new StringValue(b.toString());
    }

    @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
    public static Value n(final IntValue i) {
        return new StringValue(Integer.toString(i.val));
    }

    @TLAPlusOperator(identifier = "Plus", module = "Num", warn = false)
    public static Value plus(final Value a, final Value b) {
        return str(num(a).add(num(b)));
    }

    @TLAPlusOperator(identifier = "Minus", module = "Num", warn = false)
    public static Value minus(final Value a, final Value b) {
        return str(num(a).subtract(num(b)));
    }

    @TLAPlusOperator(identifier = "Times", module = "Num", warn = false)
    public static Value times(final Value a, final Value b) {
        return str(num(a).multiply(num(b)));
    }

    @TLAPlusOperator(identifier = "Div", module = "Num", warn = false)
    public static Value div(final Value a, final Value b) {
        final BigInteger[] qr = num(a).divideAndRemainder(num(b));
        // floor division
        if (qr[1].signum() != 0 && (qr[1].signum() != num(b).signum())) {
            return str(qr[0].subtract(BigInteger.ONE));
        }
        return str(qr[0]);
    }

    @TLAPlusOperator(identifier = "Lt", module = "Num", warn = false)
    public static Value lt(final Value a, final Value b) {
        return num(a).compareTo(num(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "Le", module = "Num", warn = false)
    public static Value le(final Value a, final Value b) {
        return num(a).compareTo(num(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
