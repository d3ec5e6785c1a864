// TLC override of Solve.tla: an exact simplex (Bland's rule) over the rationals.
// It is not trusted: the specification checks the certificate it returns.
import java.math.BigInteger;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

public class Solve {
    static final class F {
        static final F ZERO = new F(BigInteger.ZERO, BigInteger.ONE), ONE = new F(BigInteger.ONE, BigInteger.ONE);
        final BigInteger n, d;
        F(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        static F of(String s) {
            int k = s.indexOf('/');
            return k < 0 ? new F(new BigInteger(s), BigInteger.ONE) : new F(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        }
        F add(F o) { return new F(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        F sub(F o) { return new F(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        F mul(F o) { return new F(n.multiply(o.n), d.multiply(o.d)); }
        F div(F o) { return new F(n.multiply(o.d), d.multiply(o.n)); }
        F neg() { return new F(n.negate(), d); }
        int sgn() { return n.signum(); }
        int cmp(F o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }

    static Value field(Value r, String name) {
        RecordValue rec = (RecordValue) r.toRcd();
        for (int k = 0; k < rec.names.length; k++) if (rec.names[k].toString().equals(name)) return rec.values[k];
        throw new RuntimeException("Solve: no field " + name);
    }
    static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
    static String str(Value v) { return ((StringValue) v).getVal().toString(); }
    static F[] nums(Value v) { // null stands for an infinity
        Value[] e = seq(v); F[] r = new F[e.length];
        for (int k = 0; k < e.length; k++) { String s = str(e[k]); r[k] = s.equals("inf") || s.equals("-inf") ? null : F.of(s); }
        return r;
    }
    static Value tup(F[] v) {
        Value[] e = new Value[v.length];
        for (int k = 0; k < v.length; k++) e[k] = new StringValue(v[k].toString());
        return new TupleValue(e);
    }
    static Value rec(Object... kv) {
        int n = kv.length / 2;
        UniqueString[] names = new UniqueString[n]; Value[] vals = new Value[n];
        for (int k = 0; k < n; k++) { names[k] = UniqueString.uniqueStringOf((String) kv[2 * k]); vals[k] = (Value) kv[2 * k + 1]; }
        return new RecordValue(names, vals, false);
    }

    // flavour: the order in which columns are tried, so that other optimal bases are found too
    public static Value Solution(Value P, Value flavour) {
        int m = ((IntValue) field(P, "m")).val, n = ((IntValue) field(P, "n")).val;
        int fl = ((IntValue) flavour).val;
        F[] lhs = nums(field(P, "lhs")), rhs = nums(field(P, "rhs")), lb = nums(field(P, "lb")), ub = nums(field(P, "ub")), c = nums(field(P, "c"));
        F[][] A = new F[m][n];
        for (F[] r : A) Arrays.fill(r, F.ZERO);
        Value[] rows = seq(field(P, "A"));
        for (int i = 0; i < m; i++) for (Value e : seq(rows[i])) {
            Value[] t = seq(e); int j = ((IntValue) t[0]).val - 1; A[i][j] = A[i][j].add(F.of(str(t[1])));
        }
        F[] zm = new F[m], zn = new F[n]; Arrays.fill(zm, F.ZERO); Arrays.fill(zn, F.ZERO);
        for (int i = 0; i < m; i++) if (lhs[i] != null && rhs[i] != null && lhs[i].cmp(rhs[i]) > 0) return rec("kind", new StringValue("inf"), "y", tup(zm), "z", tup(zn));
        for (int j = 0; j < n; j++) if (lb[j] != null && ub[j] != null && lb[j].cmp(ub[j]) > 0) return rec("kind", new StringValue("inf"), "y", tup(zm), "z", tup(zn));
        // columns of the standard form: x_j = base_j + sign * u
        F[] base = new F[n]; int[] col = new int[n], col2 = new int[n]; boolean[] neg = new boolean[n];
        int nc = 0;
        for (int j = 0; j < n; j++) {
            col2[j] = -1; col[j] = nc++;
            if (lb[j] != null) base[j] = lb[j];
            else if (ub[j] != null) { base[j] = ub[j]; neg[j] = true; }
            else { base[j] = F.ZERO; col2[j] = nc++; }
        }
        List<Object[]> rs = new ArrayList<>(); // {row or -1-j, F[] over columns, slack sign, right-hand side}
        for (int i = 0; i < m; i++) {
            F sh = F.ZERO; F[] a = new F[nc]; Arrays.fill(a, F.ZERO);
            for (int j = 0; j < n; j++) if (A[i][j].sgn() != 0) {
                sh = sh.add(A[i][j].mul(base[j])); a[col[j]] = neg[j] ? A[i][j].neg() : A[i][j];
                if (col2[j] >= 0) a[col2[j]] = A[i][j].neg();
            }
            if (lhs[i] != null && rhs[i] != null && lhs[i].cmp(rhs[i]) == 0) rs.add(new Object[]{i, a, 0, lhs[i].sub(sh)});
            else {
                if (lhs[i] != null) rs.add(new Object[]{i, a, -1, lhs[i].sub(sh)});
                if (rhs[i] != null) rs.add(new Object[]{i, a, 1, rhs[i].sub(sh)});
            }
        }
        for (int j = 0; j < n; j++) if (lb[j] != null && ub[j] != null) {
            F[] a = new F[nc]; Arrays.fill(a, F.ZERO); a[col[j]] = F.ONE;
            rs.add(new Object[]{-1 - j, a, 1, ub[j].sub(lb[j])});
        }
        int M = rs.size(), ns = 0;
        for (Object[] r : rs) if ((Integer) r[2] != 0) ns++;
        int N = nc + ns; // then M artificial columns, then the right-hand side
        F[][] T = new F[M][N + M + 1]; int[] B = new int[M]; boolean[] flip = new boolean[M];
        int s = nc;
        for (int r = 0; r < M; r++) {
            Arrays.fill(T[r], F.ZERO);
            Object[] q = rs.get(r);
            System.arraycopy((F[]) q[1], 0, T[r], 0, nc);
            if ((Integer) q[2] != 0) T[r][s++] = (Integer) q[2] > 0 ? F.ONE : F.ONE.neg();
            T[r][N + M] = (F) q[3];
            if (T[r][N + M].sgn() < 0) { flip[r] = true; for (int k = 0; k <= N + M; k++) T[r][k] = T[r][k].neg(); }
            T[r][N + r] = F.ONE; B[r] = N + r;
        }
        F[] cost = new F[N + M + 1]; Arrays.fill(cost, F.ZERO);
        for (int j = 0; j < n; j++) { cost[col[j]] = neg[j] ? c[j].neg() : c[j]; if (col2[j] >= 0) cost[col2[j]] = c[j].neg(); }
        // phase one
        F[] d = new F[N + M + 1]; Arrays.fill(d, F.ZERO);
        for (int k = N; k < N + M; k++) d[k] = F.ONE;
        for (int r = 0; r < M; r++) for (int k = 0; k <= N + M; k++) d[k] = d[k].sub(T[r][k]);
        run(T, B, d, N, N + M, fl);
        if (d[N + M].sgn() < 0) {
            // multipliers of the standard form rows: 1 - reduced cost of the artificial column
            F[] pi = new F[M];
            for (int r = 0; r < M; r++) { pi[r] = F.ONE.sub(d[N + r]); if (flip[r]) pi[r] = pi[r].neg(); }
            F[] y = yOf(rs, pi, m);
            return rec("kind", new StringValue("inf"), "y", tup(y), "z", tup(zOf(A, y, null, n, m)));
        }
        for (int r = 0; r < M; r++) if (B[r] >= N) // drive artificial columns out where possible
            for (int k = 0; k < N; k++) if (T[r][k].sgn() != 0) { pivot(T, B, d, r, k, N + M); break; }
        d = cost.clone();
        for (int r = 0; r < M; r++) if (d[B[r]].sgn() != 0) { F f = d[B[r]]; for (int k = 0; k <= N + M; k++) d[k] = d[k].sub(f.mul(T[r][k])); }
        int ray = run(T, B, d, N, N + M, fl);
        F[] u = new F[nc]; Arrays.fill(u, F.ZERO);
        for (int r = 0; r < M; r++) if (B[r] < nc) u[B[r]] = T[r][N + M];
        F[] x = new F[n];
        for (int j = 0; j < n; j++) { F v = col2[j] >= 0 ? u[col[j]].sub(u[col2[j]]) : u[col[j]]; x[j] = base[j].add(neg[j] ? v.neg() : v); }
        if (ray >= 0) {
            F[] du = new F[nc]; Arrays.fill(du, F.ZERO);
            if (ray < nc) du[ray] = F.ONE;
            for (int r = 0; r < M; r++) if (B[r] < nc) du[B[r]] = T[r][ray].neg();
            F[] dx = new F[n];
            for (int j = 0; j < n; j++) { F v = col2[j] >= 0 ? du[col[j]].sub(du[col2[j]]) : du[col[j]]; dx[j] = neg[j] ? v.neg() : v; }
            return rec("kind", new StringValue("unb"), "ray", tup(dx), "x", tup(x));
        }
        F[] pi = new F[M];
        for (int r = 0; r < M; r++) { pi[r] = d[N + r].neg(); if (flip[r]) pi[r] = pi[r].neg(); }
        F[] y = yOf(rs, pi, m);
        return rec("kind", new StringValue("opt"), "x", tup(x), "y", tup(y), "z", tup(zOf(A, y, c, n, m)));
    }
    static F[] yOf(List<Object[]> rs, F[] pi, int m) {
        F[] y = new F[m]; Arrays.fill(y, F.ZERO);
        for (int r = 0; r < pi.length; r++) { int i = (Integer) rs.get(r)[0]; if (i >= 0) y[i] = y[i].add(pi[r]); }
        return y;
    }
    static F[] zOf(F[][] A, F[] y, F[] c, int n, int m) {
        F[] z = new F[n];
        for (int j = 0; j < n; j++) { z[j] = c == null ? F.ZERO : c[j]; for (int i = 0; i < m; i++) z[j] = z[j].sub(A[i][j].mul(y[i])); }
        return z;
    }
    static void pivot(F[][] T, int[] B, F[] d, int r, int k, int R) {
        F p = T[r][k];
        for (int q = 0; q <= R; q++) T[r][q] = T[r][q].div(p);
        for (int i = 0; i < T.length; i++) if (i != r && T[i][k].sgn() != 0) { F f = T[i][k]; for (int q = 0; q <= R; q++) if (T[r][q].sgn() != 0) T[i][q] = T[i][q].sub(f.mul(T[r][q])); }
        if (d[k].sgn() != 0) { F f = d[k]; for (int q = 0; q <= R; q++) if (T[r][q].sgn() != 0) d[q] = d[q].sub(f.mul(T[r][q])); }
        B[r] = k;
    }
    // returns -1 at an optimum, or the column of an unbounded direction
    static int run(F[][] T, int[] B, F[] d, int N, int R, int fl) {
        while (true) {
            int k = -1;
            for (int q = 0; q < N; q++) { int t = fl == 0 ? q : N - 1 - q; if (d[t].sgn() < 0) { k = t; break; } }
            if (k < 0) return -1;
            int r = -1; F best = null;
            for (int i = 0; i < T.length; i++) if (T[i][k].sgn() > 0) {
                F t = T[i][R].div(T[i][k]);
                int cm = r < 0 ? -1 : t.cmp(best);
                if (cm < 0 || (cm == 0 && (fl == 0 ? B[i] < B[r] : B[i] > B[r]))) { r = i; best = t; }
            }
            if (r < 0) return k;
            pivot(T, B, d, r, k, R);
        }
    }
}
