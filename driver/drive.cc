// Conformance driver: replays API scripts (generated from the specification or by the
// workload generator) into the real PSLP library and records what the library did.
// usage: drive IN OUT      one JSON line per case in OUT
#include "oracle.hpp"
#include "PSLP_API.h"
#include "PSLP_sol.h"
#include "PSLP_stats.h"
#include "hooks.hpp"
#include <array>
#include <atomic>
#include <functional>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>

using std::string; using std::vector;

static string numd(double d)
{
    if (std::isnan(d)) return "\"nan\"";
    if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
    if (d == (long) d && std::fabs(d) < 1e15) return "\"" + std::to_string((long) d) + "\"";
    return "\"" + Q(d).get_str() + "\"";
}
static string numq(const Q &q) { return "\"" + q.get_str() + "\""; }
template <class V, class F> static string arr(const V &v, F f)
{
    string s = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += f(v[i]); }
    return s + "]";
}
static string arrd(const double *p, size_t n)
{
    return arr(vector<double>(p, p + n), [](double d) { return numd(d); });
}
static string arrq(const vector<Q> &v) { return arr(v, numq); }
static string arri(const int *p, size_t n)
{
    return arr(vector<int>(p, p + n), [](int d) { return std::to_string(d); });
}

// nearest simple rational, so that rounding noise in the reduced problem does not make the
// *exact* oracle see a different problem; the specification checks the result against the
// unsnapped numbers anyway
static Q snap(double d)
{
    if (d == 0) return 0;
    double a = std::fabs(d);
    double x = a; long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int it = 0; it < 40; it++)
    {
        double fl = std::floor(x);
        if (fl > 1e12) break;
        long k = (long) fl;
        if (p1 && k > (long) (1e15 / p1)) break;
        long p2 = k * p1 + p0, q2 = k * q1 + q0;
        if (q2 > 2000000) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        if (std::fabs((double) p1 / (double) q1 - a) <= 1e-11 * std::max(1.0, a))
        {
            Q r(p1, q1); r.canonicalize();
            return d < 0 ? Q(-r) : r;
        }
        if (x == fl) break;
        x = 1.0 / (x - fl);
    }
    return Q(d);
}

struct Prob
{
    int m, n, nnz;
    vector<int> Ap, Ai; vector<double> Ax, lhs, rhs, lb, ub, c;
    // exact-size heap blocks handed to the library, so an out-of-bounds read is out of a block
    int *hAp, *hAi; double *hAx, *hlhs, *hrhs, *hlb, *hub, *hc;
    bool scribbled = false;
    Settings *stgs;
    vector<int> sb; int max_shift; double max_time;
};

template <class T> static T *dup(const vector<T> &v)
{
    T *p = (T *) malloc(v.size() * sizeof(T) + (v.empty() ? 1 : 0));
    if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T));
    return p;
}

static LPData lpdata(int m, int n, const int *Ap, const int *Ai, const double *Ax, const double *lhs,
                     const double *rhs, const double *lb, const double *ub, const double *c, bool dosnap)
{
    LPData P; P.m = m; P.n = n; P.A.resize(m);
    auto q = [&](double d) { return dosnap ? snap(d) : Q(d); };
    auto b = [&](double d) { if (!std::isfinite(d) || !dosnap) return d; return d; };
    for (int i = 0; i < m; i++)
        for (int k = Ap[i]; k < Ap[i + 1]; k++) P.A[i].push_back({Ai[k], q(Ax[k])});
    P.lhs.assign(lhs, lhs + m); P.rhs.assign(rhs, rhs + m);
    P.lb.assign(lb, lb + n); P.ub.assign(ub, ub + n);
    for (int j = 0; j < n; j++) P.c.push_back(q(c[j]));
    (void) b;
    return P;
}

static string cert_json(const LPRes &r)
{
    switch (r.kind)
    {
    case LPRes::OPT:
        return "{\"kind\":\"opt\",\"x\":" + arrq(r.x) + ",\"y\":" + arrq(r.y) + ",\"z\":" + arrq(r.z) + "}";
    case LPRes::UNBND:
        return "{\"kind\":\"unb\",\"x\":" + arrq(r.x) + ",\"ray\":" + arrq(r.ray) + "}";
    case LPRes::INFEAS:
        if (r.ray.size())
            return "{\"kind\":\"inf\",\"clash\":" + std::to_string(r.ray[0].get_num().get_si() + 1) +
                   ",\"y\":" + arrq(r.y) + ",\"z\":" + arrq(r.z) + "}";
        return "{\"kind\":\"inf\",\"clash\":0,\"y\":" + arrq(r.y) + ",\"z\":" + arrq(r.z) + "}";
    default: return "{\"kind\":\"none\"}";
    }
}

static string rows_json(int m, const int *Ap, const int *Ai, const double *Ax)
{
    string s = "[";
    for (int i = 0; i < m; i++)
    {
        if (i) s += ",";
        s += "[";
        for (int k = Ap[i]; k < Ap[i + 1]; k++)
        {
            if (k > Ap[i]) s += ",";
            s += "[" + std::to_string(Ai[k] + 1) + "," + numd(Ax[k]) + "]";
        }
        s += "]";
    }
    return s + "]";
}

static char *shm; static size_t shm_len; static const size_t SHM = 64u << 20;
struct Shared { volatile long cur; volatile size_t len; volatile int done; };
static Shared *sh;
static thread_local string *to_buffer; // a thread of the case collects its events here
static void out(const string &s)
{
    if (to_buffer) { *to_buffer += s; return; }
    if (sh->len + s.size() + 64 > SHM) { fprintf(stderr, "trace too long\n"); _exit(77); }
    memcpy(shm + sh->len, s.data(), s.size());
    sh->len = sh->len + s.size();
}

struct Case { long id; unsigned long seed; vector<Prob> probs; vector<vector<long>> ops; string fam; };

static double rd(std::istream &in) { string s; in >> s; return strtod(s.c_str(), nullptr); }

static bool read_case(std::istream &in, Case &c)
{
    string w;
    if (!(in >> w)) return false;
    if (w != "CASE") { fprintf(stderr, "bad case file at %s\n", w.c_str()); exit(3); }
    int np, nops;
    in >> c.id >> c.fam >> c.seed >> np >> nops;
    for (int k = 0; k < np; k++)
    {
        Prob p;
        in >> p.m >> p.n >> p.nnz;
        p.sb.resize(8);
        for (int &b : p.sb) in >> b;
        in >> p.max_shift; p.max_time = rd(in);
        p.Ap.resize(p.m + 1); for (int &v : p.Ap) in >> v;
        p.Ai.resize(p.nnz); for (int &v : p.Ai) in >> v;
        auto vd = [&](vector<double> &v, int n) { v.resize(n); for (double &d : v) d = rd(in); };
        vd(p.Ax, p.nnz); vd(p.lhs, p.m); vd(p.rhs, p.m); vd(p.lb, p.n); vd(p.ub, p.n); vd(p.c, p.n);
        c.probs.push_back(p);
    }
    for (int k = 0; k < nops; k++)
    {
        string o; in >> o;
        vector<long> v; v.push_back(o[0]);
        int na = (o == "N" || o == "P" || o == "K" || o == "B" || o == "X") ? 2 : 1;
        for (int i = 0; i < na; i++) { long a; in >> a; v.push_back(a); }
        if (o == "S") v.push_back(0);
        if (o == "X") { v[0] = 'S'; v[2]++; } // S p, with the problem that comes next in the arrays
        c.ops.push_back(v);
    }
    return true;
}

static string stats_json(const PresolveStats *s)
{
    std::ostringstream o;
    o << "{\"m0\":" << s->n_rows_original << ",\"n0\":" << s->n_cols_original << ",\"nz0\":" << s->nnz_original
      << ",\"m1\":" << s->n_rows_reduced << ",\"n1\":" << s->n_cols_reduced << ",\"nz1\":" << s->nnz_reduced
      << ",\"triv\":" << (long) s->nnz_removed_trivial << ",\"fast\":" << (long) s->nnz_removed_fast
      << ",\"prop\":" << (long) s->nnz_removed_primal_propagation << ",\"prow\":" << (long) s->nnz_removed_parallel_rows
      << ",\"pcol\":" << (long) s->nnz_removed_parallel_cols << "}";
    return o.str();
}

// in microseconds
static string times_json(const PresolveStats *s)
{
    string o = "{";
    auto put = [&](const char *k, double t) { o += string(o.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(t > -2.1e3 && t < 2.1e3 ? llround(t * 1e6) : -1); };
    put("init", s->time_init); put("fast", s->time_fast_reductions); put("medium", s->time_medium_reductions);
    put("prop", s->time_primal_propagation); put("prow", s->time_parallel_rows); put("pcol", s->time_parallel_cols);
    put("presolve", s->time_presolve); put("postsolve", s->time_postsolve);
    return o + "}";
}

static const long LIM = 1 << 30;
static string red_json(const Presolver *pr, bool populated)
{
    const PresolvedProblem *r = pr->reduced_prob;
    if (!populated) return "{}";
    std::ostringstream o;
    o << "{\"m\":" << r->m << ",\"n\":" << r->n << ",\"nnz\":" << r->nnz;
    bool sane = r->m < 100000 && r->n < 100000 && r->nnz < 1000000;
    if (!sane) { o << ",\"sane\":false}"; return o.str(); }
    o << ",\"sane\":true,\"Ap\":" << arri(r->Ap, r->m + 1) << ",\"Ai\":" << arri(r->Ai, r->nnz);
    bool ptr = r->Ap[0] == 0;
    for (size_t i = 0; i < r->m && ptr; i++) ptr = r->Ap[i] <= r->Ap[i + 1];
    ptr = ptr && r->Ap[r->m] == (int) r->nnz;
    if (ptr) o << ",\"A\":" << rows_json((int) r->m, r->Ap, r->Ai, r->Ax);
    else o << ",\"A\":[]";
    o << ",\"lhs\":" << arrd(r->lhs, r->m) << ",\"rhs\":" << arrd(r->rhs, r->m)
      << ",\"lb\":" << arrd(r->lbs, r->n) << ",\"ub\":" << arrd(r->ubs, r->n) << ",\"c\":" << arrd(r->c, r->n)
      << ",\"off\":" << numd(r->obj_offset) << "}";
    return o.str();
}
static bool red_sane(const PresolvedProblem *r)
{
    if (!(r->m < 100000 && r->n < 100000 && r->nnz < 1000000)) return false;
    if (r->Ap[0] != 0 || r->Ap[r->m] != (int) r->nnz) return false;
    for (size_t i = 0; i < r->m; i++) if (r->Ap[i] > r->Ap[i + 1]) return false;
    for (size_t k = 0; k < r->nnz; k++)
        if (r->Ai[k] < 0 || r->Ai[k] >= (int) r->n || !std::isfinite(r->Ax[k])) return false;
    for (size_t j = 0; j < r->n; j++)
        if (!std::isfinite(r->c[j]) || std::isnan(r->lbs[j]) || std::isnan(r->ubs[j])) return false;
    for (size_t i = 0; i < r->m; i++)
        if (std::isnan(r->lhs[i]) || std::isnan(r->rhs[i])) return false;
    return true;
}

static bool same_input(const Prob &p)
{
    if (p.scribbled) return true;
    auto eq = [](const void *a, const void *b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; };
    return eq(p.hAp, p.Ap.data(), 4 * p.Ap.size()) && eq(p.hAi, p.Ai.data(), 4 * p.Ai.size()) &&
           eq(p.hAx, p.Ax.data(), 8 * p.Ax.size()) && eq(p.hlhs, p.lhs.data(), 8 * p.lhs.size()) &&
           eq(p.hrhs, p.rhs.data(), 8 * p.rhs.size()) && eq(p.hlb, p.lb.data(), 8 * p.lb.size()) &&
           eq(p.hub, p.ub.data(), 8 * p.ub.size()) && eq(p.hc, p.c.data(), 8 * p.c.size());
}

static bool same_settings(const Settings &a, const Settings &b)
{
    return a.ston_cols == b.ston_cols && a.dton_eq == b.dton_eq && a.parallel_rows == b.parallel_rows &&
           a.parallel_cols == b.parallel_cols && a.primal_propagation == b.primal_propagation &&
           a.finite_bound_tightening == b.finite_bound_tightening && a.dual_fix == b.dual_fix &&
           a.relax_bounds == b.relax_bounds && a.max_shift == b.max_shift && a.max_time == b.max_time &&
           a.verbose == b.verbose;
}

static int g_case_timeout = 30;

// what the library writes to standard output goes into a file of its own
static long printed_so_far()
{
    if (to_buffer) return 0; // one stdout for all threads
    fflush(stdout);
    off_t o = lseek(1, 0, SEEK_CUR);
    if (o > (1 << 20)) { if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET); o = 0; }
    return (long) o;
}
// what a call reported since then: sizes (".. rows, .. columns, .. nnz"), and what it declares the problem to be
static string report_json(long from)
{
    string t, sizes;
    if (!to_buffer)
    {
        fflush(stdout);
        off_t o = lseek(1, 0, SEEK_CUR);
        if (o > from && o - from < 65536)
        {
            t.resize((size_t) (o - from));
            if (pread(1, &t[0], t.size(), from) != (ssize_t) t.size()) t.clear();
        }
    }
    long a, b, d;
    for (size_t k = t.find(" rows,"); k != string::npos; k = t.find(" rows,", k + 1))
    {
        size_t s = k;
        while (s > 0 && isdigit((unsigned char) t[s - 1])) s--;
        if (sscanf(t.c_str() + s, "%ld rows, %ld columns, %ld nnz", &a, &b, &d) == 3)
            sizes += (sizes.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + "]";
    }
    auto says = [&](const char *w) { return t.find(w) != string::npos ? "true" : "false"; };
    return string("{\"sizes\":[") + sizes + "],\"inf\":" + says("infeasible") + ",\"unb\":" + says("unbounded") + "}";
}
static string settings_json(const Settings *s)
{
    std::ostringstream o;
    o << "{\"on\":[" << s->ston_cols << "," << s->dton_eq << "," << s->parallel_rows << "," << s->parallel_cols << ","
      << s->primal_propagation << "," << s->finite_bound_tightening << "," << s->dual_fix << "," << s->relax_bounds
      << "],\"max_shift\":" << s->max_shift << ",\"max_ms\":" << (long) (s->max_time * 1000) << ",\"verbose\":" << s->verbose << "}";
    return o.str();
}

static void run_case(Case &c)
{
    alarm(g_case_timeout);
    hook_case();
    std::mt19937_64 rng(c.seed * 7919 + 13);
    string head = "{\"id\":" + std::to_string(c.id) + ",\"fam\":\"" + c.fam + "\",\"probs\":[";
    for (size_t k = 0; k < c.probs.size(); k++)
    {
        Prob &p = c.probs[k];
        if (k) head += ",";
        LPData P = lpdata(p.m, p.n, p.Ap.data(), p.Ai.data(), p.Ax.data(), p.lhs.data(), p.rhs.data(),
                          p.lb.data(), p.ub.data(), p.c.data(), false);
        LPRes r = solve_lp(P, rng, false);
        head += "{\"m\":" + std::to_string(p.m) + ",\"n\":" + std::to_string(p.n) + ",\"nnz\":" + std::to_string(p.nnz) +
                ",\"A\":" + rows_json(p.m, p.Ap.data(), p.Ai.data(), p.Ax.data()) + ",\"lhs\":" + arrd(p.lhs.data(), p.m) +
                ",\"rhs\":" + arrd(p.rhs.data(), p.m) + ",\"lb\":" + arrd(p.lb.data(), p.n) + ",\"ub\":" +
                arrd(p.ub.data(), p.n) + ",\"c\":" + arrd(p.c.data(), p.n) + ",\"off\":\"0\",\"cert\":" + cert_json(r) +
                ",\"stgs\":" + arri(p.sb.data(), 8) + ",\"max_shift\":" + std::to_string(p.max_shift) +
                ",\"max_ms\":" + std::to_string((long) (p.max_time * 1000)) + "}";
        p.hAp = dup(p.Ap); p.hAi = dup(p.Ai); p.hAx = dup(p.Ax); p.hlhs = dup(p.lhs); p.hrhs = dup(p.rhs);
        p.hlb = dup(p.lb); p.hub = dup(p.ub); p.hc = dup(p.c);
        p.stgs = default_settings();
        p.stgs->ston_cols = p.sb[0]; p.stgs->dton_eq = p.sb[1]; p.stgs->parallel_rows = p.sb[2];
        p.stgs->parallel_cols = p.sb[3]; p.stgs->primal_propagation = p.sb[4];
        p.stgs->finite_bound_tightening = p.sb[5]; p.stgs->dual_fix = p.sb[6]; p.stgs->relax_bounds = p.sb[7];
        p.stgs->max_shift = p.max_shift; p.stgs->max_time = p.max_time; p.stgs->verbose = false;
    }
    head += "],\"ev\":[";
    out(head);
    struct H { Presolver *pr = nullptr; int p = -1; int status = -1; bool posted = false; };
    typedef std::map<long, H> Handles;
    typedef std::map<int, std::array<vector<double>, 3>> Used; // the first solution postsolved for each problem
    typedef vector<vector<long>> Ops;
    std::function<void(const Ops &, Handles &, Used &, std::mt19937_64 &, bool)> exec =
        [&](const Ops &ops, Handles &hs, Used &used, std::mt19937_64 &rng, bool first) {
    bool threaded = to_buffer != nullptr;
    auto begin_hook = [&]() { if (!threaded) hook_begin(); };
    auto end_hook = [&]() { if (!threaded) hook_end(); };
    auto begin = [&](const string &op, long h) {
        // the call event: if nothing follows it, the call did not return
        long p = 0;
        auto it = hs.find(h);
        if (it != hs.end() && it->second.pr) p = it->second.p + 1;
        out(string(first ? "" : ",") + "{\"ev\":\"" + op + "\",\"h\":" + std::to_string(h));
        if (op == "Run" || op == "Post" || op == "View" || op == "Free") out(",\"p\":" + std::to_string(p));
        first = false;
    };
    for (size_t at = 0; at < ops.size(); at++)
    {
        const vector<long> &o = ops[at];
        char k = (char) o[0];
        long h = o[1];
        if (k == 'Q')
        {
            // the calls up to 'Q 0' run in threads of their own, all at the same time; the events of
            // each thread are in order, those of different threads commute
            std::map<long, Ops> groups;
            long cur = h;
            for (at++; at < ops.size(); at++)
            {
                if (ops[at][0] == 'Q') { if (ops[at][1] == 0) break; cur = ops[at][1]; }
                else groups[cur].push_back(ops[at]);
            }
            begin("Threads", 0);
            struct Th { string buf; Handles hs; Used used; std::mt19937_64 rng; };
            std::map<long, Th> ths;
            for (auto &g : groups) { Th &t = ths[g.first]; t.hs = hs; t.used = used; t.rng.seed(c.seed * 31 + g.first); }
            std::atomic<int> ready{0};
            int total = (int) groups.size();
            vector<std::thread> run;
            for (auto &g : groups)
                run.emplace_back([&, &g = g, &t = ths[g.first]]() {
                    to_buffer = &t.buf;
                    ready++;
                    while (ready.load() < total) {}
                    exec(g.second, t.hs, t.used, t.rng, false);
                });
            for (auto &t : run) t.join();
            out("}");
            for (auto &g : groups)
            {
                Th &t = ths[g.first];
                for (auto &q : g.second)
                    if (q[0] != 'S') { hs[q[1]] = t.hs[q[1]]; }
                out(t.buf);
            }
            continue;
        }
        if (k == 'N')
        {
            Prob &p = c.probs[o[2]];
            if (p.scribbled)
            {
                // give the library the original data again
                free(p.hAp); free(p.hAi); free(p.hAx); free(p.hlhs); free(p.hrhs); free(p.hlb); free(p.hub); free(p.hc);
                p.hAp = dup(p.Ap); p.hAi = dup(p.Ai); p.hAx = dup(p.Ax); p.hlhs = dup(p.lhs); p.hrhs = dup(p.rhs);
                p.hlb = dup(p.lb); p.hub = dup(p.ub); p.hc = dup(p.c);
                p.scribbled = false;
            }
            begin("New", h);
            out(",\"p\":" + std::to_string(o[2] + 1));
            Settings before = *p.stgs;
            begin_hook();
            Presolver *pr = new_presolver(p.hAx, p.hAi, p.hAp, p.m, p.n, p.nnz, p.hlhs, p.hrhs, p.hlb, p.hub, p.hc, p.stgs);
            end_hook();
            hs[h].pr = pr; hs[h].p = (int) o[2]; hs[h].status = -1; hs[h].posted = false;
            out(string(",\"ok\":") + (pr ? "true" : "false") + ",\"intact\":" + (same_input(p) && same_settings(before, *p.stgs) ? "true" : "false") +
                ",\"dim\":[" + (pr ? std::to_string(pr->sol->dim_y) + "," + std::to_string(pr->sol->dim_x) : string("0,0")) + "]" + (pr ? ",\"times\":" + times_json(pr->stats) : string()) + hook_json() + "}");
        }
        else if (k == 'D')
        {
            begin("Defaults", 0);
            Settings *s = default_settings();
            string js = ",\"def\":" + settings_json(s);
            // both from the other extreme, with limits of the caller's own
            memset(s, 0, sizeof *s); s->max_shift = (int) h; s->max_time = (double) h;
            set_settings_true(s); js += ",\"all\":" + settings_json(s);
            set_settings_false(s); js += ",\"none\":" + settings_json(s) + ",\"limit\":" + std::to_string(h);
            free_settings(s);
            out(js + "}");
        }
        else if (k == 'A') { hook_fail_alloc(h); continue; }
        else if (k == 'T') { hook_thread_mode(h); continue; }
        else if (k == 'B') { c.probs[o[2]].stgs->verbose = h != 0; continue; }
        else if (k == 'K') { hook_clock_jump(h, o[2]); continue; }
        else if (k == 'S')
        {
            Prob &p = c.probs[h];
            Prob *q = o[2] ? &c.probs[o[2] - 1] : nullptr;
            bool into = q && q != &p && q->m == p.m && q->n == p.n && q->nnz == p.nnz && !p.scribbled;
            if (into)
            {
                // the caller puts another problem into the same arrays
                auto put = [](auto *d, const auto &v) { if (!v.empty()) memcpy(d, v.data(), v.size() * sizeof v[0]); };
                put(p.hAp, q->Ap); put(p.hAi, q->Ai); put(p.hAx, q->Ax); put(p.hlhs, q->lhs); put(p.hrhs, q->rhs);
                put(p.hlb, q->lb); put(p.hub, q->ub); put(p.hc, q->c);
                std::swap(p.hAp, q->hAp); std::swap(p.hAi, q->hAi); std::swap(p.hAx, q->hAx); std::swap(p.hlhs, q->hlhs);
                std::swap(p.hrhs, q->hrhs); std::swap(p.hlb, q->hlb); std::swap(p.hub, q->hub); std::swap(p.hc, q->hc);
                q->scribbled = false;
            }
            else if (!p.scribbled)
            {
                auto junk = [&](double *v, size_t n) { for (size_t i = 0; i < n; i++) v[i] = 1e5 + (double) (rng() % 1000); };
                for (size_t i = 0; i < p.Ap.size(); i++) p.hAp[i] = -7 - (int) i;
                for (size_t i = 0; i < p.Ai.size(); i++) p.hAi[i] = -1000 - (int) i;
                junk(p.hAx, p.Ax.size()); junk(p.hlhs, p.lhs.size()); junk(p.hrhs, p.rhs.size());
                junk(p.hlb, p.lb.size()); junk(p.hub, p.ub.size()); junk(p.hc, p.c.size());
                if (rng() % 2)
                {
                    // the caller may also release its arrays
                    free(p.hAp); free(p.hAi); free(p.hAx); free(p.hlhs); free(p.hrhs); free(p.hlb); free(p.hub); free(p.hc);
                    vector<int> e; vector<double> f;
                    p.hAp = dup(e); p.hAi = dup(e); p.hAx = dup(f); p.hlhs = dup(f); p.hrhs = dup(f); p.hlb = dup(f); p.hub = dup(f); p.hc = dup(f);
                }
            }
            p.scribbled = true;
            begin("Scribble", 0);
            out(",\"p\":" + std::to_string(h + 1) + ",\"into\":" + std::to_string(into ? o[2] : 0) + "}");
        }
        else if (k == 'R')
        {
            H &H_ = hs[h];
            if (!H_.pr) { begin("Skip", h); out("}"); continue; }
            Prob &p = c.probs[H_.p];
            begin("Run", h);
            Settings before = *p.stgs;
            long quiet = printed_so_far();
            begin_hook();
            int st = run_presolver(H_.pr);
            end_hook();
            if (st == UNCHANGED || st == REDUCED)
            {
                const PresolvedProblem *r = H_.pr->reduced_prob;
                hook_defined(r, sizeof *r);
                hook_defined(r->Ap, sizeof(int) * (r->m + 1)); hook_defined(r->Ai, sizeof(int) * r->nnz);
                hook_defined(r->Ax, 8 * r->nnz); hook_defined(r->lhs, 8 * r->m); hook_defined(r->rhs, 8 * r->m);
                hook_defined(r->lbs, 8 * r->n); hook_defined(r->ubs, 8 * r->n); hook_defined(r->c, 8 * r->n);
            }
            H_.status = st;
            string report = report_json(quiet);
            quiet = printed_so_far() - quiet;
            bool pop = (st == UNCHANGED || st == REDUCED);
            out(",\"status\":" + std::to_string(st) + ",\"verbose\":" + std::to_string(before.verbose) + ",\"printed\":" + std::to_string(quiet) + ",\"report\":" + report + ",\"intact\":" +
                (same_input(p) && same_settings(before, *p.stgs) ? "true" : "false"));
            out(",\"red\":" + red_json(H_.pr, pop));
            out(",\"stats\":" + stats_json(H_.pr->stats) + ",\"times\":" + times_json(H_.pr->stats));
            string cert = "{\"kind\":\"none\"}";
            if (pop && red_sane(H_.pr->reduced_prob))
            {
                PresolvedProblem *r = H_.pr->reduced_prob;
                LPData R = lpdata((int) r->m, (int) r->n, r->Ap, r->Ai, r->Ax, r->lhs, r->rhs, r->lbs, r->ubs, r->c, true);
                // snap sides and bounds too
                for (auto *v : {&R.lhs, &R.rhs, &R.lb, &R.ub}) for (double &d : *v) if (std::isfinite(d)) d = snap(d).get_d();
                cert = cert_json(solve_lp(R, rng, false));
            }
            out(",\"cert\":" + cert + hook_json() + "}");
        }
        else if (k == 'V')
        {
            H &H_ = hs[h];
            bool pop = H_.pr && (H_.status == UNCHANGED || H_.status == REDUCED);
            if (!pop) { begin("Skip", h); out("}"); continue; }
            begin("View", h);
            const Solution *v = H_.pr->sol;
            bool dims = v->dim_x == (size_t) c.probs[H_.p].n && v->dim_y == (size_t) c.probs[H_.p].m;
            out(",\"red\":" + red_json(H_.pr, pop));
            if (H_.posted && dims) out(",\"ox\":" + arrd(v->x, v->dim_x) + ",\"oy\":" + arrd(v->y, v->dim_y) + ",\"oz\":" + arrd(v->z, v->dim_x));
            else out(",\"ox\":[],\"oy\":[],\"oz\":[]");
            out("}");
        }
        else if (k == 'P')
        {
            H &H_ = hs[h];
            bool pop = H_.pr && (H_.status == UNCHANGED || H_.status == REDUCED);
            if (!pop || !red_sane(H_.pr->reduced_prob)) { begin("Skip", h); out("}"); continue; }
            PresolvedProblem *r = H_.pr->reduced_prob;
            LPData R = lpdata((int) r->m, (int) r->n, r->Ap, r->Ai, r->Ax, r->lhs, r->rhs, r->lbs, r->ubs, r->c, true);
            long kind = o[2];
            vector<Q> x, y, z;
            if (kind == 5)
            {
                // inaccuracies are scaled by the ratios of coefficients: moderate ones only
                double lo = 1, hi = 1;
                Prob &p = c.probs[H_.p];
                for (double d : p.Ax) { lo = std::min(lo, std::fabs(d)); hi = std::max(hi, std::fabs(d)); }
                for (size_t i = 0; i < r->nnz; i++) { lo = std::min(lo, std::fabs(r->Ax[i])); hi = std::max(hi, std::fabs(r->Ax[i])); }
                if (hi > 1000 * lo) { begin("Skip", h); out("}"); continue; }
            }
            bool again = kind == 4 && used.count(H_.p) && used[H_.p][0].size() == r->n && used[H_.p][1].size() == r->m;
            LPRes a;
            if (!again) a = solve_lp(R, rng, kind != 0 && kind != 4 && !(kind == 5 && rng() % 2));
            if (again) {}
            else if (a.kind == LPRes::OPT)
            {
                x = a.x; y = a.y; z = a.z;
                if (kind >= 1 && kind <= 3)
                {
                    vector<Q> x2;
                    if (other_optimal(R, rng, x2)) x = x2;
                    LPRes b = solve_lp(R, rng, true);
                    if (b.kind == LPRes::OPT)
                    {
                        Q t = (kind == 1) ? Q((long) (rng() % 2)) : Q((long) (1 + rng() % 3), 4ul);
                        t.canonicalize();
                        for (size_t i = 0; i < y.size(); i++) y[i] = t * y[i] + (1 - t) * b.y[i];
                        for (size_t i = 0; i < z.size(); i++) z[i] = t * z[i] + (1 - t) * b.z[i];
                        if (kind == 2) for (size_t i = 0; i < x.size(); i++) x[i] = t * x[i] + (1 - t) * b.x[i];
                    }
                }
                if (kind == 3) { vector<Q> x2; if (some_feasible(R, rng, x2)) x = x2; }
            }
            else if (some_feasible(R, rng, x)) { y.assign(r->m, 0); z.assign(r->n, 0); }
            else { begin("Skip", h); out("}"); continue; }
            auto dd = [](const vector<Q> &v, size_t n) { double *p = (double *) malloc(8 * n + 1); for (size_t i = 0; i < n; i++) p[i] = v[i].get_d(); return p; };
            auto du = [](const vector<double> &v) { double *p = (double *) malloc(8 * v.size() + 1); if (v.size()) memcpy(p, v.data(), 8 * v.size()); return p; };
            if (kind == 5)
            {
                // what a solver returns is a solution up to its accuracy
                auto noise = [&](vector<Q> &v) {
                    for (Q &q : v)
                        if (rng() % 3) { Q e((long) (rng() % 201) - 100, 200000000000ul); e.canonicalize(); q += (1 + abs(q)) * e; }
                };
                noise(x); noise(y); noise(z);
            }
            double *dx, *dy, *dz;
            if (again) { auto &u = used[H_.p]; dx = du(u[0]); dy = du(u[1]); dz = du(u[2]); }
            else { dx = dd(x, r->n); dy = dd(y, r->m); dz = dd(z, r->n); }
            if (!used.count(H_.p)) used[H_.p] = {vector<double>(dx, dx + r->n), vector<double>(dy, dy + r->m), vector<double>(dz, dz + r->n)};
            vector<double> cx(dx, dx + r->n), cy(dy, dy + r->m), cz(dz, dz + r->n);
            begin("Post", h);
            int verbose = c.probs[H_.p].stgs->verbose;
            long quiet = printed_so_far();
            begin_hook();
            postsolve(H_.pr, dx, dy, dz);
            end_hook();
            quiet = printed_so_far() - quiet;
            bool intact = (r->n == 0 || (!memcmp(dx, cx.data(), 8 * r->n) && !memcmp(dz, cz.data(), 8 * r->n))) &&
                          (r->m == 0 || !memcmp(dy, cy.data(), 8 * r->m)) && same_input(c.probs[H_.p]);
            Solution *s = H_.pr->sol;
            H_.posted = true;
            out(",\"verbose\":" + std::to_string(verbose) + ",\"printed\":" + std::to_string(quiet) +
                ",\"intact\":" + (intact ? "true" : "false") + ",\"times\":" + times_json(H_.pr->stats) + ",\"x\":" + arrd(dx, r->n) + ",\"y\":" + arrd(dy, r->m) +
                ",\"z\":" + arrd(dz, r->n));
            Prob &p = c.probs[H_.p];
            hook_defined(s->x, 8 * s->dim_x); hook_defined(s->y, 8 * s->dim_y); hook_defined(s->z, 8 * s->dim_x);
            bool dims = s->dim_x == (size_t) p.n && s->dim_y == (size_t) p.m;
            if (dims)
                out(",\"dims\":true,\"ox\":" + arrd(s->x, s->dim_x) + ",\"oy\":" + arrd(s->y, s->dim_y) + ",\"oz\":" + arrd(s->z, s->dim_x) + hook_json() + "}");
            else
                out(",\"dims\":false,\"ox\":[],\"oy\":[],\"oz\":[]" + hook_json() + "}");
            free(dx); free(dy); free(dz);
        }
        else if (k == 'F')
        {
            H &H_ = hs[h];
            begin(H_.pr ? "Free" : "FreeNull", h);
            begin_hook();
            free_presolver(H_.pr);
            end_hook();
            H_.pr = nullptr; H_.status = -1;
            out(hook_json() + "}");
        }
    }
    };
    Handles hs; Used used;
    exec(c.ops, hs, used, rng, true);
    for (auto &kv : hs) if (kv.second.pr) { free_presolver(kv.second.pr); }
    for (auto &p : c.probs)
    {
        free(p.hAp); free(p.hAi); free(p.hAx); free(p.hlhs); free(p.hrhs); free(p.hlb); free(p.hub); free(p.hc);
        free_settings(p.stgs);
    }
    out("]}\n");
    alarm(0);
}

int main(int argc, char **argv)
{
    if (argc < 3) return 3;
    if (getenv("CASE_TIMEOUT")) g_case_timeout = atoi(getenv("CASE_TIMEOUT"));
    std::ifstream in(argv[1]);
    vector<Case> cases;
    while (true) { Case c; if (!read_case(in, c)) break; cases.push_back(std::move(c)); }
    FILE *fo = fopen(argv[2], "w");
    if (!fo) return 3;
    shm = (char *) mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh = (Shared *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    size_t next = 0;
    long lost = 0, max_lost = getenv("MAX_LOST") ? atol(getenv("MAX_LOST")) : 1000000;
    while (next < cases.size())
    {
        sh->cur = (long) next; sh->done = 0; sh->len = 0;
        fflush(fo);
        pid_t pid = fork();
        if (pid == 0)
        {
            FILE *sink = tmpfile();
            int nul = sink ? fileno(sink) : open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            hook_child_init();
            for (size_t i = next; i < cases.size(); i++)
            {
                sh->cur = (long) i; sh->len = 0;
                run_case(cases[i]);
                fwrite(shm, 1, sh->len, fo);
                if (sh->len > (1u << 16)) fflush(fo);
                if (i % 64 == 63 || i + 1 == cases.size() || sh->len > (1u << 16)) fflush(fo);
                else fflush(fo);
                sh->len = 0;
            }
            sh->done = 1;
            fclose(fo);
#ifdef LEAKCHECK
            exit(0);
#else
            _exit(0);
#endif
        }
        int st; waitpid(pid, &st, 0);
        fseek(fo, 0, SEEK_END);
        if (sh->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 3;
        if (sh->len == 0) { fprintf(stderr, "driver died outside a case: status %d\n", st); return 3; }
        // the call under way never returned
        fwrite(shm, 1, sh->len, fo);
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
        // close the open event, if one is open
        string tail(shm, sh->len);
        // find whether the last event is closed
        int depth = 0; bool instr = false;
        for (char ch : tail) { if (ch == '"') instr = !instr; else if (!instr) { if (ch == '{' || ch == '[') depth++; else if (ch == '}' || ch == ']') depth--; } }
        // depth 2: between events; 3: inside an event
        string fin = (depth >= 3) ? ",\"lost\":" + std::to_string(sig) + "}]}\n" : "]}\n";
        if (depth == 2) fin = string(tail.back() == '[' ? "" : ",") + "{\"ev\":\"Lost\",\"h\":0,\"lost\":" + std::to_string(sig) + "}]}\n";
        fwrite(fin.data(), 1, fin.size(), fo);
        next = (size_t) sh->cur + 1;
        if (++lost >= max_lost) break; // enough to report
    }
    fclose(fo);
    return 0;
}
