// TLC override of the operators of Rat.tla
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        static Q parse(String s) {
            int k = s.indexOf('/');
            if (k < 0) return new Q(new BigInteger(s), BigInteger.ONE);
            return new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        }
        StringValue val() {
            return new StringValue(d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d);
        }
    }
    private static final int CAP = 1 << 20;
    private static final ConcurrentHashMap<UniqueString, Q> cache = new ConcurrentHashMap<>();
    private static Q q(Value v) {
        if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a string: " + v);
        UniqueString u = ((StringValue) v).getVal();
        Q r = cache.get(u);
        if (r == null) {
            r = Q.parse(u.toString());
            if (cache.size() < CAP) cache.put(u, r);
        }
        return r;
    }
    private static int inf(Value v) {
        String s = ((StringValue) v).getVal().toString();
        if (s.equals("inf")) return 1;
        if (s.equals("-inf")) return -1;
        if (s.equals("nan")) return 2;
        return 0;
    }
    public static Value RAdd(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (x.n.signum() == 0) return b;
        if (y.n.signum() == 0) return a;
        return new Q(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)).val();
    }
    public static Value RSub(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (y.n.signum() == 0) return a;
        return new Q(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)).val();
    }
    private static final StringValue ZERO = new StringValue("0");
    public static Value RMul(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (x.n.signum() == 0 || y.n.signum() == 0) return ZERO;
        return new Q(x.n.multiply(y.n), x.d.multiply(y.d)).val();
    }
    public static Value RDiv(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (y.n.signum() == 0) throw new RuntimeException("Rat: division by zero");
        return new Q(x.n.multiply(y.d), x.d.multiply(y.n)).val();
    }
    public static Value RLe(Value a, Value b) {
        int i = inf(a), j = inf(b);
        if (i == 2 || j == 2) return BoolValue.ValFalse;
        if (i != 0 || j != 0) return (i <= j) ? BoolValue.ValTrue : BoolValue.ValFalse;
        Q x = q(a), y = q(b);
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value RFin(Value a) { return inf(a) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RInt(Value i) { return new StringValue(((IntValue) i).val + ""); }
    public static Value RFloor(Value a) {
        Q x = q(a);
        BigInteger[] r = x.n.divideAndRemainder(x.d);
        return new StringValue((r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0]).toString());
    }
}
