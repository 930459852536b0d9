import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides for module Dbl: binary64 arithmetic on bit-pattern strings. */
public final class Dbl {
    private static double d(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        final String s = ((StringValue) v).val.toString();
        if (s.length() == 17 && s.charAt(0) == '#') {
            return Double.longBitsToDouble(Long.parseUnsignedLong(s, 1, 17, 16));
        }
        return Double.parseDouble(s);
    }

    private static final char[] HEX = "0123456789abcdef".toCharArray();

    private static Value v(final double x) {
        final char[] c = new char[17];
        long b = Double.doubleToLongBits(x);
        for (int i = 16; i > 0; --i) {
            c[i] = HEX[(int) (b & 15)];
            b >>>= 4;
        }
        c[0] = '#';
        return new StringValue(new String(c));
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static Value[] seq(final Value s) {
        return ((TupleValue) s.toTuple()).elems;
    }

    public static Value F(final Value a) {
        return v(d(a));
    }

    public static Value FAbs(final Value a) {
        final double x = d(a);
        return v(Math.abs(x));
    }

    public static Value FNeg(final Value a) {
        final double x = d(a);
        return v(-x);
    }

    public static Value FExp(final Value a) {
        final double x = d(a);
        return v(StrictMath.exp(x));
    }

    public static Value FLog(final Value a) {
        final double x = d(a);
        return v(StrictMath.log(x));
    }

    public static Value FSqrt(final Value a) {
        final double x = d(a);
        return v(Math.sqrt(x));
    }

    public static Value FSin(final Value a) {
        final double x = d(a);
        return v(StrictMath.sin(x));
    }

    public static Value FCos(final Value a) {
        final double x = d(a);
        return v(StrictMath.cos(x));
    }

    public static Value FTanh(final Value a) {
        final double x = d(a);
        return v(StrictMath.tanh(x));
    }

    public static Value FFloor(final Value a) {
        final double x = d(a);
        return v(Math.floor(x));
    }

    public static Value FAdd(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(x + y);
    }

    public static Value FSub(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(x - y);
    }

    public static Value FMul(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(x * y);
    }

    public static Value FDiv(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(x / y);
    }

    public static Value FPow(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(StrictMath.pow(x, y));
    }

    public static Value FMax(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.max(x, y));
    }

    public static Value FMin(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return v(Double.isNaN(x) ? y : Double.isNaN(y) ? x : Math.min(x, y));
    }

    public static Value FInt(final Value a) {
        return IntValue.gen((int) d(a));
    }

    public static Value FLt(final Value a, final Value b) {
        return b(d(a) < d(b));
    }

    public static Value FLe(final Value a, final Value b) {
        return b(d(a) <= d(b));
    }

    public static Value FEq(final Value a, final Value b) {
        final double x = d(a), y = d(b);
        return b(x == y || (Double.isNaN(x) && Double.isNaN(y)));
    }

    public static Value FFinite(final Value a) {
        final double x = d(a);
        return b(!Double.isNaN(x) && !Double.isInfinite(x));
    }

    private static boolean close(final double x, final double y, final double abs, final double rel) {
        if (x == y || (Double.isNaN(x) && Double.isNaN(y))) {
            return true;
        }
        return Math.abs(x - y) <= abs + rel * Math.max(Math.abs(x), Math.abs(y))
            && !Double.isInfinite(x) && !Double.isInfinite(y);
    }

    public static Value FClose(final Value a, final Value b) {
        return b(close(d(a), d(b), 1e-11, 1e-9));
    }

    public static Value FNear(final Value a, final Value b, final Value tol) {
        final double t = d(tol);
        return b(close(d(a), d(b), t, t));
    }

    /** Structural equality, doubles up to a relative error. */
    private static boolean alike(final Value x, final Value y, final double tol) {
        if (x instanceof StringValue && y instanceof StringValue) {
            final String s = ((StringValue) x).val.toString();
            final String t = ((StringValue) y).val.toString();
            if (s.equals(t)) {
                return true;
            }
            if (s.length() == 17 && t.length() == 17 && s.charAt(0) == '#' && t.charAt(0) == '#') {
                final double p = d(x);
                final double q = d(y);
                return p == q || (Double.isNaN(p) && Double.isNaN(q))
                    || Math.abs(p - q) <= tol * Math.max(Math.abs(p), Math.abs(q));
            }
            return false;
        }
        if (x instanceof IntValue && y instanceof IntValue) {
            return ((IntValue) x).val == ((IntValue) y).val;
        }
        if (x instanceof BoolValue && y instanceof BoolValue) {
            return ((BoolValue) x).val == ((BoolValue) y).val;
        }
        if (x instanceof StringValue || y instanceof StringValue || x instanceof IntValue || y instanceof IntValue
            || x instanceof BoolValue || y instanceof BoolValue) {
            return false;
        }
        final TupleValue tx = (TupleValue) x.toTuple();
        final TupleValue ty = (TupleValue) y.toTuple();
        if (tx != null && ty != null) {
            if (tx.elems.length != ty.elems.length) {
                return false;
            }
            for (int i = 0; i < tx.elems.length; ++i) {
                if (!alike(tx.elems[i], ty.elems[i], tol)) {
                    return false;
                }
            }
            return true;
        }
        if (tx != null || ty != null) {
            return false;
        }
        final RecordValue rx = (RecordValue) x.toRcd();
        final RecordValue ry = (RecordValue) y.toRcd();
        if (rx == null || ry == null || rx.names.length != ry.names.length) {
            return false;
        }
        rx.normalize();
        ry.normalize();
        for (int i = 0; i < rx.names.length; ++i) {
            if (!rx.names[i].equals(ry.names[i]) || !alike(rx.values[i], ry.values[i], tol)) {
                return false;
            }
        }
        return true;
    }

    public static Value Alike(final Value x, final Value y, final Value tol) {
        return b(alike(x, y, d(tol)));
    }

    public static Value FSum(final Value s) {
        double r = 0;
        for (final Value e : seq(s)) {
            r += d(e);
        }
        return v(r);
    }

    public static Value FDot(final Value s, final Value t) {
        double r = 0;
        final Value[] x = seq(s), y = seq(t);
        for (int i = 0; i < x.length; ++i) {
            r += d(x[i]) * d(y[i]);
        }
        return v(r);
    }

    public static Value FStr(final Value a) {
        return new StringValue(Double.toString(d(a)));
    }

    public static Value StrLen(final Value a) {
        return IntValue.gen(((StringValue) a).val.toString().length());
    }

    public static Value Chars(final Value a) {
        final String s = ((StringValue) a).val.toString();
        final Value[] r = new Value[s.length()];
        for (int i = 0; i < r.length; ++i) {
            r[i] = new StringValue(s.substring(i, i + 1));
        }
        return new TupleValue(r);
    }
}
