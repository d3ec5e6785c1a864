// Exact rational LP oracle (bounded general-form simplex, Bland's rule).
// It is *untrusted*: everything it returns (KKT points, Farkas vectors, rays)
// goes into the trace as a certificate, and the TLA+ specification checks it.
#pragma once
#include <gmpxx.h>
#include <cmath>
#include <vector>
#include <string>
#include <random>
#include <algorithm>

typedef mpq_class Q;

struct LPData
{
    int m = 0, n = 0;
    // rows as (col, val)
    std::vector<std::vector<std::pair<int, Q>>> A;
    std::vector<double> lhs, rhs, lb, ub; // may be +-inf
    std::vector<Q> c;
};

struct LPRes
{
    enum Kind { OPT, INFEAS, UNBND, GIVEUP } kind = GIVEUP;
    std::vector<Q> x; // OPT/UNBND: primal point
    std::vector<Q> y, z; // OPT: duals, INFEAS: Farkas vector
    std::vector<Q> ray; // UNBND
};

class Simplex
{
    int m, n, N;                  // N = n + m variables: structural, then row activities
    std::vector<std::vector<Q>> T; // basic row r : x_B(r) = sum T[r][k] x_N(k), k in 0..n-1
    std::vector<int> B, NB;
    std::vector<Q> lo, up, val;
    std::vector<char> hlo, hup;
    std::vector<int> prio; // pivot priority, a permutation
    const LPData &P;
    std::mt19937_64 &rng;
    long budget;

    void pivot(int r, int k)
    {
        // basic row r leaves, nonbasic column k enters
        Q a = T[r][k];
        std::vector<Q> &R = T[r];
        // x_B = sum_j R_j x_j  => x_k = (x_B - sum_{j!=k} R_j x_j)/a
        for (int j = 0; j < n; j++)
            if (j != k) R[j] = -R[j] / a;
        R[k] = Q(1) / a;
        for (int i = 0; i < m; i++)
        {
            if (i == r || T[i][k] == 0) continue;
            Q f = T[i][k];
            for (int j = 0; j < n; j++)
            {
                if (j == k) T[i][j] = f * R[k];
                else if (R[j] != 0) T[i][j] += f * R[j];
            }
        }
        std::swap(B[r], NB[k]);
    }
    void recompute()
    {
        for (int i = 0; i < m; i++)
        {
            Q s = 0;
            for (int j = 0; j < n; j++)
                if (T[i][j] != 0) s += T[i][j] * val[NB[j]];
            val[B[i]] = s;
        }
    }

  public:
    Simplex(const LPData &P_, std::mt19937_64 &rng_, bool shuffle, long budget_ = 3000)
        : P(P_), rng(rng_), budget(budget_)
    {
        m = P.m; n = P.n; N = n + m;
        T.assign(m, std::vector<Q>(n));
        B.resize(m); NB.resize(n);
        lo.resize(N); up.resize(N); val.resize(N); hlo.assign(N, 0); hup.assign(N, 0);
        for (int j = 0; j < n; j++)
        {
            NB[j] = j;
            if (std::isfinite(P.lb[j])) { hlo[j] = 1; lo[j] = Q(P.lb[j]); }
            if (std::isfinite(P.ub[j])) { hup[j] = 1; up[j] = Q(P.ub[j]); }
            if (P.lb[j] == INFINITY) { hlo[j] = 2; }
            if (hlo[j] == 1) val[j] = lo[j];
            else if (hup[j]) val[j] = up[j];
            else val[j] = 0;
        }
        for (int i = 0; i < m; i++)
        {
            B[i] = n + i;
            for (auto &e : P.A[i]) T[i][e.first] += e.second;
            if (std::isfinite(P.lhs[i])) { hlo[n + i] = 1; lo[n + i] = Q(P.lhs[i]); }
            if (std::isfinite(P.rhs[i])) { hup[n + i] = 1; up[n + i] = Q(P.rhs[i]); }
        }
        prio.resize(N);
        for (int i = 0; i < N; i++) prio[i] = i;
        if (shuffle) std::shuffle(prio.begin(), prio.end(), rng);
        recompute();
    }

    // returns 0 feasible, 1 infeasible (res gets Farkas), 2 gave up
    int phase1(LPRes &res)
    {
        // bound clash of a single variable
        for (int v = 0; v < N; v++)
            if (hlo[v] && hup[v] && lo[v] > up[v])
            {
                res.y.assign(m, 0); res.z.assign(n, 0);
                res.kind = LPRes::INFEAS;
                // combination: x_v - x_v = 0  : for a structural v there is no row identity,
                // the certificate is the clash itself (z = 0): marked by clash index
                res.ray.assign(1, Q(v));
                return 1;
            }
        while (true)
        {
            if (--budget < 0) return 2;
            int r = -1;
            for (int i = 0; i < m; i++)
            {
                int v = B[i];
                bool bad = (hlo[v] && val[v] < lo[v]) || (hup[v] && val[v] > up[v]);
                if (bad && (r < 0 || prio[v] < prio[B[r]])) r = i;
            }
            if (r < 0) return 0;
            int v = B[r];
            bool below = hlo[v] && val[v] < lo[v];
            int k = -1;
            for (int j = 0; j < n; j++)
            {
                if (T[r][j] == 0) continue;
                int w = NB[j];
                bool inc = (T[r][j] > 0) == below; // nonbasic must increase
                bool can = inc ? !(hup[w] && val[w] >= up[w]) : !(hlo[w] && val[w] <= lo[w]);
                if (can && (k < 0 || prio[w] < prio[NB[k]])) k = j;
            }
            if (k < 0)
            {
                // Farkas: x_v - sum T[r][j] x_NB(j) = 0, sign so that lower bound clash
                res.y.assign(m, 0); res.z.assign(n, 0);
                Q s = below ? 1 : -1;
                auto put = [&](int w, const Q &q) { if (w < n) res.z[w] += q; else res.y[w - n] += q; };
                put(v, s);
                for (int j = 0; j < n; j++) if (T[r][j] != 0) put(NB[j], -s * T[r][j]);
                res.kind = LPRes::INFEAS;
                return 1;
            }
            Q target = below ? lo[v] : up[v];
            int w = NB[k];
            val[w] += (target - val[v]) / T[r][k];
            val[v] = target;
            pivot(r, k);
            recompute();
        }
    }
    // minimise obj (structural costs).  0 optimal, 3 unbounded, 2 give up
    int phase2(const std::vector<Q> &c, LPRes &res)
    {
        while (true)
        {
            if (--budget < 0) return 2;
            // reduced costs
            std::vector<Q> d(n);
            for (int j = 0; j < n; j++) if (NB[j] < n) d[j] = c[NB[j]];
            for (int i = 0; i < m; i++)
                if (B[i] < n && c[B[i]] != 0)
                    for (int j = 0; j < n; j++)
                        if (T[i][j] != 0) d[j] += c[B[i]] * T[i][j];
            int k = -1; bool inc = false;
            for (int j = 0; j < n; j++)
            {
                int w = NB[j];
                if (d[j] == 0) continue;
                bool up_ = d[j] < 0;
                bool can = up_ ? !(hup[w] && val[w] >= up[w]) : !(hlo[w] && val[w] <= lo[w]);
                if (can && (k < 0 || prio[w] < prio[NB[k]])) { k = j; inc = up_; }
            }
            if (k < 0)
            {
                res.kind = LPRes::OPT;
                res.x.assign(val.begin(), val.begin() + n);
                res.y.assign(m, 0); res.z.assign(n, 0);
                for (int j = 0; j < n; j++)
                    if (NB[j] < n) res.z[NB[j]] = d[j]; else res.y[NB[j] - n] = d[j];
                return 0;
            }
            int w = NB[k];
            Q dir = inc ? 1 : -1;
            bool have = false; Q step; int r = -1;
            if (inc ? hup[w] : hlo[w]) { have = true; step = inc ? up[w] - val[w] : val[w] - lo[w]; }
            for (int i = 0; i < m; i++)
            {
                if (T[i][k] == 0) continue;
                Q rate = T[i][k] * dir;
                int v = B[i];
                Q s;
                if (rate > 0) { if (!hup[v]) continue; s = (up[v] - val[v]) / rate; }
                else { if (!hlo[v]) continue; s = (lo[v] - val[v]) / rate; }
                if (!have || s < step || (s == step && r >= 0 && prio[v] < prio[B[r]]))
                { have = true; step = s; r = i; }
            }
            if (!have)
            {
                res.kind = LPRes::UNBND;
                res.x.assign(val.begin(), val.begin() + n);
                res.ray.assign(n, 0);
                if (w < n) res.ray[w] = dir;
                for (int i = 0; i < m; i++) if (B[i] < n) res.ray[B[i]] = T[i][k] * dir;
                return 3;
            }
            val[w] += dir * step;
            if (r >= 0) { recompute(); pivot(r, k); recompute(); }
            else recompute();
        }
    }
    // after an optimal phase2 with costs c: freeze to the optimal face
    void freeze(const LPRes &res)
    {
        for (int j = 0; j < n; j++)
        {
            if (res.z[j] != 0) { lo[j] = up[j] = res.x[j]; hlo[j] = hup[j] = 1; }
        }
        for (int i = 0; i < m; i++)
        {
            if (res.y[i] != 0) { lo[n + i] = up[n + i] = val[n + i]; hlo[n + i] = hup[n + i] = 1; }
        }
    }
};

inline LPRes solve_one(const LPData &P, std::mt19937_64 &rng, bool shuffle)
{
    LPRes res;
    Simplex S(P, rng, shuffle);
    int s = S.phase1(res);
    if (s == 1) return res;
    if (s == 2) { res.kind = LPRes::GIVEUP; return res; }
    s = S.phase2(P.c, res);
    if (s == 2) res.kind = LPRes::GIVEUP;
    return res;
}

// another optimal primal point: a random vertex of the optimal face (if it is bounded that way)
inline bool other_optimal_one(const LPData &P, std::mt19937_64 &rng, std::vector<Q> &x)
{
    LPRes res;
    Simplex S(P, rng, true);
    if (S.phase1(res)) return false;
    if (S.phase2(P.c, res)) return false;
    S.freeze(res);
    std::vector<Q> r(P.n);
    for (int j = 0; j < P.n; j++) r[j] = (int) (rng() % 7) - 3;
    LPRes r2;
    int s = S.phase2(r, r2);
    x = (s == 0 || s == 3) ? r2.x : res.x;
    if (s == 3 && (rng() % 2)) for (int j = 0; j < P.n; j++) x[j] += r2.ray[j];
    return s == 0 || s == 3;
}
// a feasible point, not necessarily optimal: a random vertex
inline bool some_feasible_one(const LPData &P, std::mt19937_64 &rng, std::vector<Q> &x)
{
    LPRes res;
    Simplex S(P, rng, true);
    if (S.phase1(res)) return false;
    std::vector<Q> r(P.n);
    for (int j = 0; j < P.n; j++) r[j] = (int) (rng() % 9) - 4;
    int s = S.phase2(r, res);
    if (s == 2) return false;
    x = res.x;
    if (s == 3 && (rng() % 2)) for (int j = 0; j < P.n; j++) x[j] += res.ray[j];
    return true;
}

// ---- a problem is solved component by component (rows and columns that do not touch)
struct Part { LPData P; std::vector<int> rows, cols; };
inline std::vector<Part> parts_of(const LPData &P)
{
    std::vector<int> f(P.n + P.m);
    for (int i = 0; i < P.n + P.m; i++) f[i] = i;
    auto root = [&](int v) { while (f[v] != v) v = f[v] = f[f[v]]; return v; };
    for (int i = 0; i < P.m; i++) for (auto &e : P.A[i]) f[root(P.n + i)] = root(e.first);
    std::vector<int> id(P.n + P.m, -1), pos(P.n);
    std::vector<Part> parts;
    auto part = [&](int v) -> Part & { int r = root(v); if (id[r] < 0) { id[r] = (int) parts.size(); parts.emplace_back(); } return parts[id[r]]; };
    for (int j = 0; j < P.n; j++)
    {
        Part &p = part(j); pos[j] = p.P.n++;
        p.cols.push_back(j); p.P.lb.push_back(P.lb[j]); p.P.ub.push_back(P.ub[j]); p.P.c.push_back(P.c[j]);
    }
    for (int i = 0; i < P.m; i++)
    {
        Part &p = part(P.n + i); p.P.m++;
        p.rows.push_back(i); p.P.lhs.push_back(P.lhs[i]); p.P.rhs.push_back(P.rhs[i]);
        p.P.A.push_back(P.A[i]);
        for (auto &e : p.P.A.back()) e.first = pos[e.first];
    }
    return parts;
}
inline bool too_big(const Part &p) { return (long) p.P.m * p.P.n > 4000; }

inline LPRes solve_lp(const LPData &P, std::mt19937_64 &rng, bool shuffle)
{
    std::vector<Part> parts = parts_of(P);
    LPRes res; res.kind = LPRes::OPT;
    res.x.assign(P.n, 0); res.y.assign(P.m, 0); res.z.assign(P.n, 0);
    std::vector<LPRes> rs;
    for (Part &p : parts)
    {
        if (too_big(p)) { res.kind = LPRes::GIVEUP; return res; }
        rs.push_back(solve_one(p.P, rng, shuffle));
        LPRes &r = rs.back();
        if (r.kind == LPRes::GIVEUP) { res.kind = LPRes::GIVEUP; return res; }
        if (r.kind == LPRes::INFEAS)
        {
            res.kind = LPRes::INFEAS; res.y.assign(P.m, 0); res.z.assign(P.n, 0); res.x.clear();
            for (size_t k = 0; k < p.rows.size(); k++) res.y[p.rows[k]] = r.y[k];
            for (size_t k = 0; k < p.cols.size(); k++) res.z[p.cols[k]] = r.z[k];
            if (r.ray.size())
            {
                int v = (int) r.ray[0].get_num().get_si();
                res.ray.assign(1, Q(v < p.P.n ? p.cols[v] : P.n + p.rows[v - p.P.n]));
            }
            return res;
        }
        if (r.kind == LPRes::UNBND) res.kind = LPRes::UNBND;
    }
    if (res.kind == LPRes::UNBND) res.ray.assign(P.n, 0);
    for (size_t q = 0; q < parts.size(); q++)
    {
        Part &p = parts[q]; LPRes &r = rs[q];
        for (size_t k = 0; k < p.cols.size(); k++)
        {
            res.x[p.cols[k]] = r.x[k];
            if (r.kind == LPRes::OPT) res.z[p.cols[k]] = r.z[k];
            else res.ray[p.cols[k]] = r.ray[k];
        }
        if (r.kind == LPRes::OPT) for (size_t k = 0; k < p.rows.size(); k++) res.y[p.rows[k]] = r.y[k];
    }
    return res;
}
inline bool other_optimal(const LPData &P, std::mt19937_64 &rng, std::vector<Q> &x)
{
    x.assign(P.n, 0);
    for (Part &p : parts_of(P))
    {
        std::vector<Q> y;
        if (too_big(p) || !other_optimal_one(p.P, rng, y)) return false;
        for (size_t k = 0; k < p.cols.size(); k++) x[p.cols[k]] = y[k];
    }
    return true;
}
inline bool some_feasible(const LPData &P, std::mt19937_64 &rng, std::vector<Q> &x)
{
    x.assign(P.n, 0);
    for (Part &p : parts_of(P))
    {
        std::vector<Q> y;
        if (too_big(p) || !some_feasible_one(p.P, rng, y)) return false;
        for (size_t k = 0; k < p.cols.size(); k++) x[p.cols[k]] = y[k];
    }
    return true;
}
