// TLC module override for spec/Num.tla: IEEE-754 double (complex) arithmetic on
// scalars written as strings "re" or "re,im".  Only scalar arithmetic (and plain sums /
// dot products of sequences of scalars) lives here; everything else is TLA+.
import tlc2.value.impl.*;

public class Num {
    private static final class C {
        final double re, im;
        C(double r, double i) { re = r; im = i; }
    }

    private static double pd(String s) { return Double.parseDouble(s); }

    private static C p(Value v) {
        if (v instanceof IntValue) return new C(((IntValue) v).val, 0);
        String s = ((StringValue) v).val.toString();
        int k = s.indexOf(',');
        if (k < 0) return new C(pd(s), 0);
        return new C(pd(s.substring(0, k)), pd(s.substring(k + 1)));
    }

    private static StringValue f(double re) {
        if (re == 0) re = 0.0;
        return new StringValue(Double.toString(re));
    }

    private static StringValue f(double re, double im) {
        if (im == 0) return f(re);
        return new StringValue(Double.toString(re) + "," + Double.toString(im));
    }

    private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    private static double abs(C c) { return c.im == 0 ? Math.abs(c.re) : Math.hypot(c.re, c.im); }

    public static Value FAdd(Value a, Value c) { C x = p(a), y = p(c); return f(x.re + y.re, x.im + y.im); }
    public static Value FSub(Value a, Value c) { C x = p(a), y = p(c); return f(x.re - y.re, x.im - y.im); }
    public static Value FMul(Value a, Value c) {
        C x = p(a), y = p(c);
        if (x.im == 0 && y.im == 0) return f(x.re * y.re);
        if (x.im == 0) return f(x.re * y.re, x.re * y.im);
        if (y.im == 0) return f(x.re * y.re, x.im * y.re);
        return f(x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re);
    }
    public static Value FDiv(Value a, Value c) {
        C x = p(a), y = p(c);
        if (y.im == 0) {
            if (x.im == 0) return f(x.re / y.re);
            return f(x.re / y.re, x.im / y.re);
        }
        double d = y.re * y.re + y.im * y.im;
        return f((x.re * y.re + x.im * y.im) / d, (x.im * y.re - x.re * y.im) / d);
    }
    public static Value FNeg(Value a) { C x = p(a); return f(-x.re, -x.im); }
    public static Value FConj(Value a) { C x = p(a); return f(x.re, -x.im); }
    public static Value FRe(Value a) { return f(p(a).re); }
    public static Value FIm(Value a) { return f(p(a).im); }
    public static Value FAbs(Value a) { return f(abs(p(a))); }
    public static Value FSqrt(Value a) { return f(Math.sqrt(p(a).re)); }
    public static Value FExp(Value a) { return f(Math.exp(p(a).re)); }
    public static Value FLog10(Value a) { return f(Math.log10(p(a).re)); }
    public static Value FCos(Value a) { return f(Math.cos(p(a).re)); }
    public static Value FSin(Value a) { return f(Math.sin(p(a).re)); }
    public static Value FPow(Value a, Value c) { return f(Math.pow(p(a).re, p(c).re)); }
    public static Value FMax(Value a, Value c) { return f(Math.max(p(a).re, p(c).re)); }
    public static Value FMin(Value a, Value c) { return f(Math.min(p(a).re, p(c).re)); }
    public static Value FLt(Value a, Value c) { return b(p(a).re < p(c).re); }
    public static Value FLe(Value a, Value c) { return b(p(a).re <= p(c).re); }
    public static Value FEq(Value a, Value c) { C x = p(a), y = p(c); return b(x.re == y.re && x.im == y.im); }
    public static Value FIsNaN(Value a) { C x = p(a); return b(Double.isNaN(x.re) || Double.isNaN(x.im)); }
    public static Value FIsFinite(Value a) {
        C x = p(a);
        return b(!(Double.isNaN(x.re) || Double.isNaN(x.im) || Double.isInfinite(x.re) || Double.isInfinite(x.im)));
    }
    private static boolean cl(double x, double y, double tol) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
        return Math.abs(x - y) <= tol;
    }
    public static Value FClose(Value a, Value c, Value rtol, Value atol) {
        C x = p(a), y = p(c);
        double m = Math.max(abs(x), abs(y));
        if (Double.isNaN(m) || Double.isInfinite(m)) m = 0;
        double tol = p(atol).re + p(rtol).re * m;
        return b(cl(x.re, y.re, tol) && cl(x.im, y.im, tol));
    }
    public static Value FFloor(Value a) { return f(Math.floor(p(a).re)); }
    public static Value FRint(Value a) { C x = p(a); return f(Math.rint(x.re), Math.rint(x.im)); }
    public static Value FToInt(Value a) { return IntValue.gen((int) p(a).re); }
    public static Value FOf(Value a) { return f(p(a).re, p(a).im); }

    private static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        return t.elems;
    }
    public static Value FSum(Value s) {
        double re = 0, im = 0;
        for (Value v : seq(s)) { C x = p(v); re += x.re; im += x.im; }
        return f(re, im);
    }
    // sum of conj(a_i) * b_i
    public static Value FVdot(Value s, Value t) {
        double re = 0, im = 0;
        Value[] a = seq(s), c = seq(t);
        for (int i = 0; i < a.length; i++) {
            C x = p(a[i]), y = p(c[i]);
            re += x.re * y.re + x.im * y.im;
            im += x.re * y.im - x.im * y.re;
        }
        return f(re, im);
    }
    // sum of a_i * b_i
    public static Value FDotU(Value s, Value t) {
        double re = 0, im = 0;
        Value[] a = seq(s), c = seq(t);
        for (int i = 0; i < a.length; i++) {
            C x = p(a[i]), y = p(c[i]);
            re += x.re * y.re - x.im * y.im;
            im += x.re * y.im + x.im * y.re;
        }
        return f(re, im);
    }
    public static Value FMaxAbs(Value s) {
        double m = 0;
        for (Value v : seq(s)) { double d = abs(p(v)); if (d > m) m = d; }
        return f(m);
    }
    // stable ascending sort of a sequence of real scalars
    public static Value FSort(Value s) {
        Value[] a = seq(s);
        double[] d = new double[a.length];
        for (int i = 0; i < d.length; i++) d[i] = p(a[i]).re;
        java.util.Arrays.sort(d);
        Value[] r = new Value[d.length];
        for (int i = 0; i < d.length; i++) r[i] = f(d[i]);
        return new TupleValue(r);
    }
}
