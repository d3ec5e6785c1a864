"""LP workload generator: small structured LPs aimed at the reductions of a presolver.

Data are small "nice" numbers so that a wrong reduction is wrong by a lot.  The LPs are built
around a known primal point x0 and dual point (y0, z0), so most of them have an optimum; some are
then made infeasible or unbounded on purpose.
"""
import random
INF = float('inf')


class LP:
    __slots__ = ('rows', 'lhs', 'rhs', 'lb', 'ub', 'c', 'x0', 'y0', 'z0', 'fam', 'var_kinds', 'row_kinds')

    def __init__(self):
        self.var_kinds = self.row_kinds = None   # the kinds this problem is made of, if not of all
        self.rows = []   # dict col->val
        self.lhs = []; self.rhs = []
        self.lb = []; self.ub = []; self.c = []
        self.x0 = []; self.y0 = []; self.z0 = []
        self.fam = ''

    m = property(lambda s: len(s.rows))
    n = property(lambda s: len(s.c))

    def act(self, i):
        return sum(v * self.x0[j] for j, v in self.rows[i].items())

    def add_col(self, lb, ub, x0, z0=0.0):
        self.lb.append(lb); self.ub.append(ub); self.x0.append(x0); self.z0.append(z0); self.c.append(0.0)
        return self.n - 1

    def add_row(self, row, lhs, rhs, y0=0.0):
        self.rows.append({j: v for j, v in row.items() if v != 0})
        self.lhs.append(lhs); self.rhs.append(rhs); self.y0.append(y0)
        return self.m - 1

    def set_costs(self):
        """c = A'y0 + z0"""
        c = list(self.z0)
        for i, r in enumerate(self.rows):
            if self.y0[i]:
                for j, v in r.items():
                    c[j] += v * self.y0[i]
        self.c = c

    def permute(self, rng):
        pr = list(range(self.m)); rng.shuffle(pr)
        pc = list(range(self.n)); rng.shuffle(pc)
        return self.reorder(pr, pc)

    def permute_rows(self, rng):
        return self.reorder(rng.sample(range(self.m), self.m), list(range(self.n)))

    def reorder(self, pr, pc):
        inv = {old: new for new, old in enumerate(pc)}
        q = LP(); q.fam = self.fam
        for i in pr:
            q.rows.append({inv[j]: v for j, v in self.rows[i].items()})
            q.lhs.append(self.lhs[i]); q.rhs.append(self.rhs[i]); q.y0.append(self.y0[i])
        for j in pc:
            q.lb.append(self.lb[j]); q.ub.append(self.ub[j]); q.c.append(self.c[j])
            q.x0.append(self.x0[j]); q.z0.append(self.z0[j])
        return q

    def emit(self):
        Ap = [0]; Ai = []; Ax = []
        for r in self.rows:
            for j in sorted(r):
                Ai.append(j); Ax.append(r[j])
            Ap.append(len(Ai))
        return Ap, Ai, Ax


COEFS = USUAL = [1, 1, 1, -1, -1, 2, -2, 3, -3, 0.5, -0.5, 4, 5]
POWERS = [1, 1, 1, -1, -1, 2, -2, 0.5, -0.5, 4, 1, -1]  # nothing is rounded


def coef(rng):
    return float(rng.choice(COEFS))


VAR_KINDS = ['nonneg', 'box', 'free', 'neg', 'lo', 'up', 'fixed', 'bin']
ROW_KINDS = ['eq', 'le', 'ge', 'range']


def new_var(lp, rng, kind=None, at=None):
    """a variable with a random box; x0 inside, sometimes on a bound with the multiplier that goes with it"""
    if kind is None:
        kind = rng.choice(lp.var_kinds) if lp.var_kinds else rng.choices(VAR_KINDS, [5, 4, 2, 1, 1, 1, 0.4, 1.5])[0]
    x0 = float(rng.randint(-2, 3)) if at is None else at
    d1 = float(rng.randint(0, 3)); d2 = float(rng.randint(0, 3))
    if kind == 'nonneg':
        if at is None: x0 = float(rng.choice([0, 0, 1, 2, 3]))
        lb, ub = 0.0, INF
        if x0 < 0: lb = x0
    elif kind == 'bin':
        lb, ub = 0.0, 1.0
        if at is None: x0 = float(rng.choice([0, 1]))
        lb = min(lb, x0); ub = max(ub, x0)
    elif kind == 'box':
        lb, ub = x0 - d1, x0 + max(d2, 1.0 if d1 == 0 else 0.0)
    elif kind == 'free':
        lb, ub = -INF, INF
    elif kind == 'neg':
        if at is None: x0 = -abs(x0)
        lb, ub = -INF, max(0.0, x0)
    elif kind == 'lo':
        lb, ub = x0 - d1, INF
    elif kind == 'up':
        lb, ub = -INF, x0 + d2
    else:
        lb = ub = x0
    z = 0.0
    if rng.random() < 0.8:
        if lb == ub:
            z = float(rng.randint(-3, 3))
        elif x0 == lb:
            z = float(rng.choice([0, 1, 1, 2, 3]))
        elif x0 == ub:
            z = -float(rng.choice([0, 1, 1, 2, 3]))
    return lp.add_col(lb, ub, x0, z)


def new_row(lp, rng, row, kind=None):
    if kind is None:
        kind = rng.choice(lp.row_kinds) if lp.row_kinds else rng.choices(ROW_KINDS, [3, 3, 3, 1.3])[0]
    a = sum(v * lp.x0[j] for j, v in row.items())
    s1 = float(rng.choice([0, 0, 0, 1, 2, 3])); s2 = float(rng.choice([0, 0, 1, 2, 3]))
    lhs, rhs, y = -INF, INF, 0.0
    if kind == 'eq':
        lhs = rhs = a
        y = float(rng.randint(-2, 2))
    elif kind == 'le':
        rhs = a + s1
        if s1 == 0: y = -float(rng.choice([0, 1, 1, 2]))
    elif kind == 'ge':
        lhs = a - s1
        if s1 == 0: y = float(rng.choice([0, 1, 1, 2]))
    else:
        lhs, rhs = a - s1, a + s2
        if s1 == 0 and s2 == 0: rhs = a + 1
        if s1 == 0: y = float(rng.choice([0, 1, 2]))
        elif s2 == 0: y = -float(rng.choice([0, 1, 2]))
    return lp.add_row(row, lhs, rhs, y)


def rand_row(lp, rng, k, cols=None):
    cols = cols if cols is not None else list(range(lp.n))
    k = min(k, len(cols))
    return {j: coef(rng) for j in rng.sample(cols, k)}


def kernel(rng, m, n, dens=(2, 4)):
    lp = LP()
    # many problems are made of a few kinds only, so that each kind meets itself and each other
    if rng.random() < 0.5: lp.var_kinds = [rng.choice(['box', 'bin'] + VAR_KINDS) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3: lp.row_kinds = [rng.choice(ROW_KINDS) for _ in range(rng.randint(1, 2))]
    for _ in range(n):
        new_var(lp, rng)
    for _ in range(m):
        new_row(lp, rng, rand_row(lp, rng, rng.randint(*dens)))
    return lp


# ---------------------------------------------------------------- expansions
def x_ston_row(lp, rng):
    j = rng.randrange(lp.n)
    new_row(lp, rng, {j: coef(rng)})


def x_empty_row(lp, rng):
    lp.add_row({}, rng.choice([0.0, -1.0, -INF]), rng.choice([0.0, 1.0, INF]))


def x_empty_col(lp, rng):
    new_var(lp, rng)


def x_dton(lp, rng):
    """doubleton equality, on existing or new variables"""
    j = rng.randrange(lp.n)
    if rng.random() < 0.5:
        k = new_var(lp, rng)
        if rng.random() < 0.7 and lp.m:
            for i in rng.sample(range(lp.m), rng.randint(1, min(3, lp.m))):
                mix_into_row(lp, rng, i, k)
    else:
        k = rng.randrange(lp.n)
        if k == j: return
    new_row(lp, rng, {j: coef(rng), k: coef(rng)}, rng.choice(['eq', 'eq', 'eq', 'range']))


def mix_into_row(lp, rng, i, k):
    """put column k into row i, keeping x0 feasible and y0 complementary"""
    if k in lp.rows[i]: return
    v = coef(rng)
    lp.rows[i][k] = v
    d = v * lp.x0[k]
    lp.lhs[i] += d; lp.rhs[i] += d


def x_dton_chain(lp, rng):
    j = rng.randrange(lp.n)
    for _ in range(rng.randint(2, 4)):
        k = new_var(lp, rng)
        new_row(lp, rng, {j: coef(rng), k: coef(rng)}, 'eq')
        if rng.random() < 0.6 and lp.m > 1:
            mix_into_row(lp, rng, rng.randrange(lp.m), k)
        j = k


def x_ston_col(lp, rng):
    """a column with a single entry in an existing or a new row"""
    k = new_var(lp, rng, rng.choice(['free', 'free', 'nonneg', 'box', 'lo', 'up', 'neg', 'up', 'lo']))
    if lp.m and rng.random() < 0.75:
        mix_into_row(lp, rng, rng.randrange(lp.m), k)
    else:
        r = rand_row(lp, rng, rng.randint(1, 3), [j for j in range(lp.n) if j != k])
        r[k] = coef(rng)
        new_row(lp, rng, r)


def x_implied_free(lp, rng):
    """a column whose bounds are implied by a row over boxed variables"""
    k = new_var(lp, rng, 'nonneg')
    js = [new_var(lp, rng, 'box') for _ in range(rng.randint(1, 2))]
    row = {j: coef(rng) for j in js}
    lo = sum((v * lp.lb[j] if v > 0 else v * lp.ub[j]) for j, v in row.items())
    hi = sum((v * lp.ub[j] if v > 0 else v * lp.lb[j]) for j, v in row.items())
    v = coef(rng)
    # row + v*k = side
    side = sum(w * lp.x0[j] for j, w in row.items()) + v * lp.x0[k]
    ends = sorted([(side - lo) / v, (side - hi) / v])
    t = rng.random()
    if t < 0.4: lp.lb[k], lp.ub[k] = min(ends[0], lp.x0[k]) - rng.choice([0, 1, 0.0]), INF
    elif t < 0.7: lp.lb[k], lp.ub[k] = -INF, max(ends[1], lp.x0[k]) + rng.choice([0, 1])
    else: lp.lb[k], lp.ub[k] = min(ends[0], lp.x0[k]) - rng.choice([0, 1]), max(ends[1], lp.x0[k]) + rng.choice([0, 1])
    if lp.x0[k] not in (lp.lb[k], lp.ub[k]): lp.z0[k] = 0.0
    elif lp.x0[k] == lp.lb[k]: lp.z0[k] = abs(lp.z0[k])
    else: lp.z0[k] = -abs(lp.z0[k])
    row[k] = v
    new_row(lp, rng, row, rng.choice(['eq', 'eq', 'le', 'ge']))
    for _ in range(rng.randint(0, 2)):
        if lp.m > 1: mix_into_row(lp, rng, rng.randrange(lp.m - 1), k)


def x_par_row(lp, rng):
    cand = [i for i in range(lp.m) if len(lp.rows[i]) >= 2]
    if not cand: return
    i = rng.choice(cand)
    f = float(rng.choice([1, 1, -1, 2, -2, 0.5, 3, -4]))
    new_row(lp, rng, {j: v * f for j, v in lp.rows[i].items()})
    if rng.random() < 0.4:
        f = float(rng.choice([1, -1, 2, -0.5]))
        new_row(lp, rng, {j: v * f for j, v in lp.rows[i].items()})


def x_pinch(lp, rng):
    """inequalities, multiples of one another, that together make an equation"""
    row = rand_row(lp, rng, rng.choice([2, 2, 2, 3]))
    if len(row) < 2: return
    a = sum(v * lp.x0[j] for j, v in row.items())
    s = [1, -1]; rng.shuffle(s)
    for side in s:
        f = float(rng.choice([1, 1, -1, 2, -2, 0.5, -0.5, 4]))
        r = {j: v * f for j, v in row.items()}
        if side * f > 0: lp.add_row(r, a * f, INF, float(rng.choice([0, 0, 1])))
        else: lp.add_row(r, -INF, a * f, -float(rng.choice([0, 0, 1])))


def x_par_col(lp, rng):
    """split a column: same direction, costs parallel or not"""
    cand = [j for j in range(lp.n) if any(j in r for r in lp.rows)]
    if not cand: return
    j = rng.choice(cand)
    for _ in range(rng.choice([1, 1, 2])):
        f = float(rng.choice([1, 1, -1, 2, -2, 0.5, 4]))
        k = new_var(lp, rng)
        t = rng.random()
        for i, r in enumerate(lp.rows):
            if j in r:
                r[k] = r[j] * f
                d = r[k] * lp.x0[k]
                lp.lhs[i] += d; lp.rhs[i] += d
        # sometimes both may grow for ever, at different prices
        if rng.random() < 0.06:
            for q in (j, k):
                if rng.random() < 0.5: lp.lb[q] = -INF
                else: lp.ub[q] = INF
            lp.z0[k] = f * lp.z0[j] + float(rng.choice([-1, 1]))
            continue
        # parallel cost iff z0[k] = f * z0[j]
        if t < 0.7:
            if lp.z0[j] == 0.0:
                lp.z0[k] = 0.0
            else:
                # both have to sit at the right bounds
                want = f * lp.z0[j]
                if want > 0: lp.lb[k] = lp.x0[k]; lp.ub[k] = max(lp.ub[k], lp.x0[k])
                else: lp.ub[k] = lp.x0[k]; lp.lb[k] = min(lp.lb[k], lp.x0[k])
                lp.z0[k] = want


def x_forcing(lp, rng):
    """a row that forces its variables, is redundant, or tightens bounds"""
    k = rng.randint(2, 4)
    cols = [j for j in range(lp.n) if lp.ub[j] - lp.lb[j] < INF]
    while len(cols) < k:
        cols.append(new_var(lp, rng, 'box'))
    row = rand_row(lp, rng, k, cols)
    lo = sum((v * lp.lb[j] if v > 0 else v * lp.ub[j]) for j, v in row.items())
    hi = sum((v * lp.ub[j] if v > 0 else v * lp.lb[j]) for j, v in row.items())
    a = sum(v * lp.x0[j] for j, v in row.items())
    t = rng.random()
    if t < 0.35:
        # forcing: move x0 to the extreme point
        up = rng.random() < 0.5
        ok = True
        for j, v in row.items():
            nx = lp.ub[j] if (v > 0) == up else lp.lb[j]
            move_x0(lp, rng, j, nx)
        side = hi if up else lo
        y = float(rng.choice([0, 1, 2]))
        if up: lp.add_row(row, side, rng.choice([INF, side, side + 2]), y)
        else: lp.add_row(row, rng.choice([-INF, side, side - 1]), side, -y)
    elif t < 0.6:
        lp.add_row(row, rng.choice([-INF, lo, lo - 1]), rng.choice([hi, hi + 2]))
    else:
        s = float(rng.choice([0, 0, 1]))
        if rng.random() < 0.5: lp.add_row(row, a - s, INF, float(rng.choice([0, 1])) if s == 0 else 0.0)
        else: lp.add_row(row, -INF, a + s, -float(rng.choice([0, 1])) if s == 0 else 0.0)


def move_x0(lp, rng, j, nx):
    d = nx - lp.x0[j]
    if d == 0: return
    lp.x0[j] = nx
    for i, r in enumerate(lp.rows):
        if j in r:
            lp.lhs[i] += r[j] * d; lp.rhs[i] += r[j] * d
    if nx == lp.lb[j] and nx != lp.ub[j]: lp.z0[j] = float(rng.choice([0, 1, 2]))
    elif nx == lp.ub[j] and nx != lp.lb[j]: lp.z0[j] = -float(rng.choice([0, 1, 2]))
    elif nx != lp.lb[j] and nx != lp.ub[j]: lp.z0[j] = 0.0


def x_tighten(lp, rng):
    """rows through which an infinite bound becomes finite by propagation"""
    k = new_var(lp, rng, rng.choice(['free', 'nonneg', 'up', 'lo']))
    js = [new_var(lp, rng, rng.choice(['box', 'bin', 'nonneg'])) for _ in range(rng.randint(1, 3))]
    row = {j: coef(rng) for j in js}; row[k] = coef(rng)
    new_row(lp, rng, row)
    for _ in range(rng.randint(1, 2)):
        r2 = rand_row(lp, rng, rng.randint(1, 3)); r2[k] = coef(rng)
        new_row(lp, rng, r2)


def x_dual_fix(lp, rng):
    """a column with no up- or no down-locks"""
    k = new_var(lp, rng, rng.choice(['nonneg', 'box', 'free', 'neg', 'lo', 'up']))
    up = rng.random() < 0.5
    rows = rng.sample(range(lp.m), min(lp.m, rng.randint(1, 3))) if lp.m else []
    for i in rows:
        if lp.lhs[i] == lp.rhs[i] or k in lp.rows[i]: continue
        v = abs(coef(rng))
        if lp.lhs[i] > -INF and lp.rhs[i] < INF:
            # make it one-sided
            if lp.y0[i] >= 0: lp.rhs[i] = INF
            else: lp.lhs[i] = -INF
        if (lp.lhs[i] > -INF) != up: v = -v
        lp.rows[i][k] = v
        d = v * lp.x0[k]; lp.lhs[i] += d; lp.rhs[i] += d


def x_dual_fix_inf(lp, rng):
    """zero-cost column that can run to infinity: its rows disappear"""
    k = new_var(lp, rng, rng.choice(['nonneg', 'free', 'neg', 'lo']))
    pos = lp.ub[k] == INF
    lp.z0[k] = 0.0
    for _ in range(rng.randint(1, 3)):
        r = rand_row(lp, rng, rng.randint(1, 3), [j for j in range(lp.n) if j != k]) if lp.n > 1 else {}
        v = abs(coef(rng)); r[k] = v if rng.random() < 0.5 else -v
        a = sum(w * lp.x0[j] for j, w in r.items())
        s = float(rng.choice([0, 1, 2]))
        if (r[k] > 0) == pos: lp.add_row(r, a - s, INF)
        else: lp.add_row(r, -INF, a + s)
    if rng.random() < 0.4:
        k2 = new_var(lp, rng, 'nonneg' if pos else 'neg'); lp.z0[k2] = 0.0
        for i in range(lp.m):
            if k in lp.rows[i] and rng.random() < 0.7:
                v = abs(coef(rng))
                if (lp.lhs[i] > -INF) != pos: v = -v
                if pos and lp.lhs[i] == -INF: v = -abs(v)
                lp.rows[i][k2] = v
                d = v * lp.x0[k2]; lp.lhs[i] += d; lp.rhs[i] += d


def x_close_bounds(lp, rng):
    k = new_var(lp, rng, 'fixed', at=float(rng.choice([0, 1, 2, -1, 0.5])))
    if rng.random() < 0.3: lp.ub[k] = lp.lb[k] + 1e-9
    for i in rng.sample(range(lp.m), min(lp.m, rng.randint(0, 3))):
        mix_into_row(lp, rng, i, k)


def x_free_sub(lp, rng):
    """a free variable in one equality and several other rows"""
    k = new_var(lp, rng, 'free')
    r = rand_row(lp, rng, rng.randint(1, 3), [j for j in range(lp.n) if j != k]); r[k] = coef(rng)
    new_row(lp, rng, r, 'eq')
    for _ in range(rng.randint(0, 3)):
        if lp.m > 1: mix_into_row(lp, rng, rng.randrange(lp.m - 1), k)


def x_free_row(lp, rng):
    """a row without finite sides, possibly over a column of its own"""
    r = rand_row(lp, rng, rng.randint(1, 3))
    if rng.random() < 0.5:
        k = new_var(lp, rng)
        if rng.random() < 0.5: lp.z0[k] = 0.0
        r[k] = coef(rng)
        if rng.random() < 0.4 and lp.m: mix_into_row(lp, rng, rng.randrange(lp.m), k)
    lp.add_row(r, -INF, INF)


def x_rows(lp, rng):
    for _ in range(rng.randint(1, 2)):
        new_row(lp, rng, rand_row(lp, rng, rng.randint(2, 5)))


EXPANSIONS = {
    'ston_row': x_ston_row, 'empty_row': x_empty_row, 'empty_col': x_empty_col, 'dton': x_dton,
    'dton_chain': x_dton_chain, 'ston_col': x_ston_col, 'implied_free': x_implied_free,
    'par_row': x_par_row, 'par_col': x_par_col, 'forcing': x_forcing, 'tighten': x_tighten,
    'dual_fix': x_dual_fix, 'dual_fix_inf': x_dual_fix_inf, 'close': x_close_bounds,
    'free_sub': x_free_sub, 'rows': x_rows, 'free_row': x_free_row,
    'pinch': x_pinch,
}


def spoil(lp, rng):
    """make it infeasible or unbounded (or just random)"""
    t = rng.random()
    if t < 0.45 and lp.m:
        i = rng.randrange(lp.m)
        d = float(rng.choice([1, 2, 5, -1, -2, -5]))
        if lp.lhs[i] == -INF and lp.rhs[i] == INF: return
        lp.lhs[i] += d; lp.rhs[i] += d
        if rng.random() < 0.3 and lp.lhs[i] == -INF: lp.lhs[i] = lp.rhs[i]
        elif rng.random() < 0.3 and lp.rhs[i] == INF: lp.rhs[i] = lp.lhs[i]
    elif t < 0.75:
        j = rng.randrange(lp.n)
        lp.c[j] += float(rng.choice([-3, -2, -1, 1, 2, 3]))
    else:
        j = rng.randrange(lp.n)
        d = float(rng.choice([1, 2, 4]))
        if rng.random() < 0.5: lp.lb[j] += d; lp.ub[j] = max(lp.ub[j], lp.lb[j])
        else: lp.ub[j] -= d; lp.lb[j] = min(lp.lb[j], lp.ub[j])


def make(rng, weights=None, size=None, spoil_p=0.25, cost_p=0.15):
    """one LP: a kernel grown by expansions"""
    size = size or rng.choices([1, 2, 3, 4, 6, 9], [2, 3, 4, 4, 2, 1])[0]
    # a kernel that falls apart, or one that keeps what is added to it together
    lp = kernel(rng, rng.randint(0, 3), rng.randint(1, 4)) if rng.random() < 0.6 else kernel(rng, rng.randint(2, 5), rng.randint(3, 5))
    names = list(EXPANSIONS)
    w = [1.0 if weights is None else weights.get(k, 0.15) for k in names]
    used = []
    for _ in range(size):
        k = rng.choices(names, w)[0]
        used.append(k)
        EXPANSIONS[k](lp, rng)
    lp.set_costs()
    if rng.random() < spoil_p:
        for _ in range(rng.choice([1, 1, 2])): spoil(lp, rng)
    if rng.random() < cost_p:
        lp.c = [float(rng.choice([0, 0, 1, -1, 2])) for _ in lp.c]
    for i in range(lp.m):
        if lp.lhs[i] == -INF and lp.rhs[i] == INF:
            lp.rhs[i] = lp.act(i) + 1
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
    lp.fam = max(set(used), key=used.count) if used else 'kernel'
    return lp.permute(rng)


def ill_scaled(rng):
    """structured LPs with a few large coefficients, sides or bounds"""
    lp = make(rng, spoil_p=0.1)
    f = float(rng.choice([100, 1000, 1e4]))
    if rng.random() < 0.5 and lp.m:
        i = rng.randrange(lp.m)
        for j in lp.rows[i]: lp.rows[i][j] *= f
        lp.lhs[i] *= f; lp.rhs[i] *= f
    if rng.random() < 0.5:
        j = rng.randrange(lp.n)
        for r in lp.rows:
            if j in r: r[j] *= f
        lp.c[j] *= f
        lp.lb[j] /= f; lp.ub[j] /= f
    lp.fam = 'scaled'
    return lp


def scaled_cols(rng):
    """columns (and sometimes rows) in other units: x_j = f * x_j'"""
    lp = make(rng, spoil_p=0.15)
    for j in range(lp.n):
        if rng.random() < 0.5:
            f = float(rng.choice([0.25, 0.5, 2, 4, 8]))
            for r in lp.rows:
                if j in r: r[j] *= f
            lp.c[j] *= f; lp.lb[j] /= f; lp.ub[j] /= f
    # nearly, but visibly not, parallel costs
    if rng.random() < 0.5:
        j = rng.randrange(lp.n)
        lp.c[j] *= float(rng.choice([1.005, 0.99, 1.01]))
    lp.fam = 'scaledc'
    return lp


def hub(rng):
    """columns with many rows that are substituted into short ones: fill-in, rows that move in memory"""
    lp = LP()
    for _ in range(rng.randint(3, 6)): new_var(lp, rng)
    hubs = [new_var(lp, rng, rng.choice(['box', 'nonneg', 'free'])) for _ in range(rng.choice([1, 1, 2]))]
    base = [j for j in range(lp.n) if j not in hubs]
    for _ in range(rng.randint(8, 14)):
        r = rand_row(lp, rng, rng.randint(1, 3), base)
        for h in hubs:
            if rng.random() < 0.85: r[h] = coef(rng)
        new_row(lp, rng, r)
    n0 = lp.m
    for h in hubs:
        prev = h
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = new_var(lp, rng, rng.choice(['box', 'nonneg', 'free', 'lo'])) if rng.random() < 0.75 else rng.choice(base)
            if k == prev: continue
            for i in rng.sample(range(n0), rng.randint(1, 3)): mix_into_row(lp, rng, i, k)
            a = float(rng.choice([1, -1, 2])); b = a * rng.choice([2, 3, -2, 1, 1.5, -4])
            new_row(lp, rng, {prev: a, k: b}, 'eq')
            prev = k
    for _ in range(rng.choice([0, 1, 2, 3])):
        rng.choice([x_ston_col, x_par_row, x_par_col, x_forcing, x_ston_row, x_dton, x_dual_fix])(lp, rng)
    lp.set_costs()
    if rng.random() < 0.1: spoil(lp, rng)
    for i in range(lp.m):
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
    lp.fam = 'hub'
    return lp.permute(rng) if rng.random() < 0.7 else lp


def fill(rng):
    """substituting a long column into a short one that lies before (or after) it: fill-in that needs space"""
    lp = LP()
    for _ in range(rng.randint(3, 5)): new_var(lp, rng)
    base = list(range(lp.n))
    hubs = [new_var(lp, rng, rng.choice(['box', 'nonneg', 'free'])) for _ in range(rng.choice([1, 1, 2]))]
    short = [new_var(lp, rng, rng.choice(['box', 'nonneg', 'free', 'lo'])) for _ in range(len(hubs) + rng.choice([0, 0, 1]))]
    rows = []
    for i in range(rng.randint(9, 18)): rows.append(rand_row(lp, rng, rng.randint(1, 3), base))
    front = rng.random() < 0.7
    for s in short:
        at = rng.randrange(3) if front else rng.randrange(len(rows))
        for i in {at, at if rng.random() < 0.6 else rng.randrange(len(rows))}: rows[i][s] = coef(rng)
    for h in hubs:
        first = rng.randint(0, 4)
        for i in range(first, len(rows)):
            if rng.random() < 0.9: rows[i][h] = coef(rng)
    tie = []
    for q, h in enumerate(hubs):
        # the hub goes: its coefficient divides the other one (or not)
        for s in [short[q]] + ([short[-1]] if len(short) > len(hubs) and q == 0 else []):
            a = float(rng.choice([1, -1, 2])); b = a * rng.choice([2, 3, -2, -4, 1, 1.5])
            tie.append({h: a, s: b})
            h = s if rng.random() < 0.5 else h
    for t in tie: rows.insert(rng.choice([0, 0, len(rows), rng.randrange(len(rows) + 1)]), t)
    for r in rows: new_row(lp, rng, r, 'eq' if any(r is t for t in tie) else None)
    for _ in range(rng.choice([0, 0, 1, 2])):
        rng.choice([x_ston_col, x_par_row, x_par_col, x_forcing, x_ston_row, x_dton, x_dual_fix])(lp, rng)
    lp.set_costs()
    if rng.random() < 0.1: spoil(lp, rng)
    for i in range(lp.m):
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
    lp.fam = 'fill'
    if rng.random() < 0.3: return lp.permute(rng)
    # the order of rows and columns matters for where the space is
    if rng.random() < 0.5:
        pc = list(range(lp.n)); pc.reverse(); return lp.reorder(list(range(lp.m)), pc)
    return lp


def bins(rng, bad=0.08):
    """several rows (or columns) that are multiples of one another, of every kind"""
    lp = kernel(rng, rng.randint(0, 2), rng.randint(2, 4))
    dec = rng.random() < 0.4
    odd = bad > 0 and not dec and rng.random() < 0.5   # integer rows whose sides are no multiples: quotients round
    fs = [1, 1, 3, 7, 11, 13, 41, 49, -1, -7, -49, 6, 10] if odd else [0.1, 0.3, -0.7, 1.1, 3.3, -0.01, 1 / 3, 0.6] if dec else [1, 1, -1, 2, -2, 0.5, 3, -4]
    if rng.random() < 0.65:
        for _ in range(rng.choice([1, 1, 2])):
            same = not dec and rng.random() < 0.35   # equations that agree, but for the quotients of their coefficients
            base = rand_row(lp, rng, 3 if same else rng.randint(2, 3))
            if dec:
                f = rng.choice([0.1, 0.7, 1.3]); base = {j: v * f for j, v in base.items()}
            val = sum(v * lp.x0[j] for j, v in base.items())
            eq = rng.random() < 0.6
            k = rng.randint(2, 4)
            if odd and not same: val += float(rng.randint(-3, 3)) / rng.choice([3, 7, 11, 13, 41, 49])
            for q in range(k):
                f = float(rng.choice([1, 1, 49, 41, -49, 13, 6] if same else fs))
                row = {j: v * f for j, v in base.items()}
                a = sum(v * lp.x0[j] for j, v in row.items()) if not odd and rng.random() < 0.5 else val * f
                t = rng.random()
                off = float(rng.choice([0, 0, 0, 1, 2])) * abs(f)
                # now and then one row of the bin excludes the others
                if rng.random() < bad: off = -off
                if same and t < 0.7: lp.add_row(row, val * f, val * f, float(rng.randint(-2, 2)))
                elif eq and q == 0 or t < bad: lp.add_row(row, a, a, float(rng.randint(-2, 2)))
                elif t < 0.45: lp.add_row(row, a - off, INF, float(rng.choice([0, 1])) if off == 0 else 0.0)
                elif t < 0.8: lp.add_row(row, -INF, a + off, -float(rng.choice([0, 1])) if off == 0 else 0.0)
                else: lp.add_row(row, a - off, a + abs(f) * float(rng.choice([1, 2])))
    else:
        for _ in range(rng.choice([1, 2, 3])): x_par_col(lp, rng)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        rng.choice(list(EXPANSIONS.values()))(lp, rng)
    lp.set_costs()
    if bad > 0 and rng.random() < 0.1: spoil(lp, rng)
    for i in range(lp.m):
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
        if lp.lhs[i] == -INF and lp.rhs[i] == INF: lp.rhs[i] = lp.act(i) + 1
    lp.fam = 'bins'
    return lp.permute(rng)


def decimal(rng):
    """data that binary fractions only approximate, so every reduction rounds"""
    lp = make(rng, spoil_p=0.12)
    for i in range(lp.m):
        if rng.random() < 0.6:
            f = rng.choice([0.1, 0.3, 0.7, 1.1, 0.01, 3.3])
            for j in lp.rows[i]: lp.rows[i][j] *= f
            lp.lhs[i] *= f; lp.rhs[i] *= f
    for j in range(lp.n):
        if rng.random() < 0.4:
            f = rng.choice([0.1, 0.3, 0.7, 1.1, 3.3])
            for r in lp.rows:
                if j in r: r[j] *= f
            lp.c[j] *= f; lp.lb[j] /= f; lp.ub[j] /= f
    lp.fam = 'decimal'
    return lp


def crossed(rng):
    """a variable whose bounds exclude each other, alone or besides other things"""
    lp = make(rng, spoil_p=0.1)
    j = rng.randrange(lp.n)
    a = lp.x0[j]
    lp.lb[j] = a + float(rng.choice([1, 2, 0.5])); lp.ub[j] = a - float(rng.choice([0, 1]))
    lp.fam = 'crossed'
    return lp


def ladder(rng, steps=None):
    """each round of reductions only makes the next one possible: two parallel inequalities become
    an equation, whose substitution makes the next two rows parallel"""
    lp = LP(); lp.fam = 'ladder'
    steps = steps or rng.randint(12, 18)
    for _ in range(steps + 1): lp.add_col(-INF, INF, float(rng.randint(-3, 3)))
    x = lp.x0
    b_prev = al_prev = None
    for i in range(steps):
        al = float(rng.choice([1, -1, 2, -2, 1, -1]))
        b = x[i] + al * x[i + 1]
        y = float(rng.choice([0, 1, 2, -1]))
        up = rng.random() < 0.5
        rows = [({i: 1.0, i + 1: al}, b)]
        if i == 0: rows.append(({0: 1.0, 1: al}, b))
        else: rows.append(({i - 1: -1.0 / al_prev, i + 1: al}, b - b_prev / al_prev))
        for k, (r, v) in enumerate(rows):
            if (k == 0) == up: lp.add_row(r, -INF, v, min(y, 0.0))
            else: lp.add_row(r, v, INF, max(y, 0.0))
        b_prev, al_prev = b, al
    if rng.random() < 0.3:
        j = rng.randrange(lp.n)
        k = lp.add_col(0.0, INF, 1.0)
        lp.add_row({j: 1.0, k: 1.0, rng.randrange(lp.n - 1): 2.0}, -INF, INF)
        lp.rhs[-1] = lp.act(lp.m - 1)
    lp.set_costs()
    return lp.permute(rng) if rng.random() < 0.7 else lp


def chain(rng, rounds=None):
    """equations that can only be removed one after the other (the end of the chain is a singleton column,
    which goes with its row), with enough chains side by side that a round always removes a fair share"""
    lp = LP(); lp.fam = 'chain'
    rounds = rounds or rng.randint(12, 36)
    core = [lp.add_col(0.0, float(rng.randint(3, 6)), float(rng.randint(1, 2))) for _ in range(3)]
    for _ in range(2):
        r = {j: float(rng.choice([1, 2, 3, -1])) for j in core}
        lp.add_row(r, -INF, 0.0, 0.0); lp.rhs[-1] = lp.act(lp.m - 1) + rng.choice([0.0, 1.0])
    left, at = 9.0, []
    for k in range(rounds):
        c = max(1, int(0.03 * left) + 1)
        at.append(c); left += 2 * c
    at.reverse()     # how many chains are still alive in round k
    for q in range(at[0]):
        length = sum(1 for c in at if c > q)
        j, low, slack = rng.choice(core), rng.random() < 0.5, 1.0
        for _ in range(length):
            # the bound of the new variable is looser than what the rest of the chain implies, on one side only
            v, p, q = float(rng.randint(-3, 3)), float(rng.choice([1, -1, 2])), rng.random() < 0.5
            slack += 1.0
            if not q: low = not low
            k = lp.add_col(v - slack if low else -INF, INF if low else v + slack, v)
            lp.add_row({k: p, j: p if q else -p}, 0.0, 0.0, float(rng.randint(-2, 2)) if rng.random() < 0.3 else 0.0)
            lp.lhs[-1] = lp.rhs[-1] = lp.act(lp.m - 1)
            j = k
    lp.set_costs()
    return lp.permute(rng) if rng.random() < 0.7 else lp


def web(rng):
    """doubleton equations all over the same few variables, more of them than needed, so that every
    elimination turns some of the others into new ones"""
    lp = LP(); lp.fam = 'web'
    n = rng.randint(4, 14)
    wide = rng.random() < 0.7
    for _ in range(n):
        if wide: lp.add_col(-float(rng.choice([50, 100])), float(rng.choice([50, 100])), float(rng.randint(-3, 3)))
        else: new_var(lp, rng)
    cs = [[1.0, -1.0], [1.0, 2.0, -1.0], [1.0, 2.0, -2.0, 4.0], [1.0, -1.0, 0.5, 3.0]][rng.randrange(4)]
    for _ in range(rng.randint(0, 3)):
        new_row(lp, rng, rand_row(lp, rng, rng.randint(2, 4)))
    centre = rng.randrange(n)
    edges = rng.randint(n - 1, 2 * n)
    star = rng.choice([0.0, 0.3, 0.7])
    for _ in range(edges):
        j = centre if rng.random() < star else rng.randrange(n)
        k = rng.randrange(n)
        if j == k: continue
        row = {j: 1.0 if j == centre and rng.random() < 0.7 else rng.choice(cs), k: rng.choice(cs)}
        new_row(lp, rng, row, 'eq')
    lp.set_costs()
    if rng.random() < 0.1: spoil(lp, rng)
    return lp.permute(rng)


def boxed(rng):
    """rows whose sides lie about where the bounds on the variables put their least and greatest values"""
    lp = LP()
    n = rng.randint(2, 5)
    loose = rng.choice([0, 0, 0.1, 0.3])
    for _ in range(n):
        lo = float(rng.randint(-2, 2)); hi = lo + rng.choice([1, 1, 2, 4])
        lp.add_col(-INF if rng.random() < loose else lo, INF if rng.random() < loose else hi, rng.choice([lo, hi]))
    for _ in range(rng.randint(1, 4)):
        row = rand_row(lp, rng, rng.randint(2, n))
        least = sum(v * (lp.lb if v > 0 else lp.ub)[j] for j, v in row.items())
        most = sum(v * (lp.ub if v > 0 else lp.lb)[j] for j, v in row.items())
        a = sum(v * lp.x0[j] for j, v in row.items())
        off = lambda: float(rng.choice([0, 0, 0.5, 1, 1, 2, 4]))
        lhs = -INF if least == -INF or rng.random() < 0.3 else min(a, least + rng.choice([-1, 1]) * off())
        rhs = INF if most == INF or (lhs > -INF and rng.random() < 0.4) else max(a, most + rng.choice([-1, 1]) * off())
        if rng.random() < 0.08: lhs = rhs = a
        if lhs == -INF and rhs == INF: rhs = a + off()
        lp.add_row(row, lhs, rhs)
    lp.c = [float(rng.randint(-2, 2)) for _ in lp.c]
    lp.fam = 'boxed'
    return lp.permute(rng)


def scatter(lp, rows_at, cols_at, m, n, rng):
    """the problem with its rows and columns at the given places of a larger one that is empty otherwise"""
    q = LP(); q.fam = lp.fam
    R = {p: i for i, p in enumerate(rows_at)}; C = {p: j for j, p in enumerate(cols_at)}
    for p in range(n):
        if p in C:
            for f in ('lb', 'ub', 'c', 'x0', 'z0'): getattr(q, f).append(getattr(lp, f)[C[p]])
        else:
            q.add_col(0.0, 1.0, 0.0); q.c[p] = float(rng.choice([0, 0, 1]))
    for p in range(m):
        if p in R:
            q.add_row({cols_at[j]: v for j, v in lp.rows[R[p]].items()}, lp.lhs[R[p]], lp.rhs[R[p]], lp.y0[R[p]])
        else:
            q.add_row({}, -1.0, 1.0)
    return q


def twins(rng):
    """rows (or columns) of different supports that a hash of the supports may take for the same: 33 * b + c"""
    k = rng.randint(2, 4); p = rng.randrange(k - 1)
    b = p + rng.randint(0, 2); c = b + 35 + rng.randint(0, 2)
    pre = sorted(rng.sample(range(b), p)); post = [c + 1 + i for i in range(k - p - 2)]
    used = pre + [b, b + 1, c - 33, c] + post
    size = used[-1] + 1 + rng.randint(0, 2)
    at = {g: i for i, g in enumerate(used)}
    S = [[at[g] for g in pre + [b, c] + post], [at[g] for g in pre + [b + 1, c - 33] + post]]
    v = [coef(rng) for _ in range(k)]
    members = [S[rng.randrange(2)] for _ in range(rng.randint(0, 2))] + S
    lp = LP(); by_rows = rng.random() < 0.6
    fs = [1, 1, -1, 2, -2, 0.5, 3]
    if by_rows:
        for _ in used: new_var(lp, rng, rng.choice(['box', 'box', 'nonneg', 'lo', 'bin']))
        way = rng.choice([None, 'le', 'ge'])   # all of them bound the same expression from the same side, or any
        for s in members:
            f = float(rng.choice(fs))
            new_row(lp, rng, {j: f * x for j, x in zip(s, v)}, way and {'le': 'ge', 'ge': 'le'}[way] if f < 0 else way)
        for _ in range(rng.randint(1, 2)): new_row(lp, rng, {j: coef(rng) for j in range(lp.n)})
        lp.set_costs()
        q = scatter(lp.permute_rows(rng), list(range(lp.m)), used, lp.m, size, rng)
    else:
        unit = float(rng.choice([0, 0, 1, -1, 2]))
        cols = []
        for s in members:
            f = float(rng.choice(fs)); new_var(lp, rng, rng.choice(['box', 'box', 'bin', 'nonneg'] if f * unit >= 0 else ['box', 'bin']))
            cols.append({i: f * x for i, x in zip(s, v)}); lp.c[-1] = f * unit
        for _ in range(rng.randint(1, 3)):
            new_var(lp, rng, rng.choice(['box', 'nonneg'])); lp.c[-1] = float(rng.choice([0, 1, 1, 2])) if lp.ub[-1] == INF else float(rng.randint(-1, 2))
            cols.append({i: coef(rng) for i in range(len(used))})
        for i in range(len(used)): new_row(lp, rng, {j: d[i] for j, d in enumerate(cols) if i in d})
        lp = lp.reorder(list(range(lp.m)), rng.sample(range(lp.n), lp.n))
        q = scatter(lp, used, list(range(lp.n)), size, lp.n, rng)
    q.fam = 'twins'
    return q


def pairs(rng):
    """many groups of parallel rows, or of parallel columns, in any order"""
    lp = LP(); n = rng.choice([6, 8, 12, 12])
    fs = [1, 1, -1, 2, -2, 0.5, 3]
    seen = set(); vecs = []
    for _ in range(rng.randint(3, 7) if n < 12 else rng.randint(5, 10)):
        s = tuple(sorted(rng.sample(range(n), rng.randint(3, min(n - 1, 10)))))
        if s in seen: continue
        seen.add(s); d = {j: coef(rng) for j in s}; u = float(rng.choice([0, 1, 2]))
        for _ in range(rng.choice([1, 2, 2, 2, 3])):
            f = float(rng.choice(fs)); vecs.append(({j: f * x for j, x in d.items()}, f * u))
    if rng.random() < 0.6:
        for _ in range(n): new_var(lp, rng, rng.choice(['box', 'box', 'nonneg', 'lo', 'bin']))
        for d, _ in vecs: new_row(lp, rng, d)
        lp.set_costs()
    else:
        for d, u in vecs:
            new_var(lp, rng, rng.choice(['box', 'box', 'bin'] + ['nonneg'] * (u >= 0))); lp.c[-1] = u
        for i in range(n):
            row = {j: d[i] for j, (d, _) in enumerate(vecs) if i in d}
            if row: new_row(lp, rng, row)
    lp.fam = 'pairs'
    return lp.permute(rng)


def vast(rng):
    """sides and bounds that are finite, but very large; some rows and variables that could be anywhere between"""
    lp = make(rng, spoil_p=0.1, cost_p=0.1)
    big = [1e6, 9999999.0, 1e7, 10000001.0, 2e7, 1e8, 1e9, 3e9, 1e10]
    p = rng.choice([0.2, 0.5, 0.9])
    for j in range(lp.n):
        if lp.ub[j] == INF and rng.random() < p: lp.ub[j] = rng.choice(big)
        if lp.lb[j] == -INF and rng.random() < p: lp.lb[j] = -rng.choice(big)
    for i in range(lp.m):
        if lp.rhs[i] == INF and rng.random() < p: lp.rhs[i] = rng.choice(big)
        elif lp.lhs[i] == -INF and rng.random() < p: lp.lhs[i] = -rng.choice(big)
    lp.fam = 'vast'
    return lp


def extreme(rng):
    """numbers of any size a double can have, which only have to be survived"""
    lp = make(rng, spoil_p=0.2, cost_p=0.2)
    e = rng.choice([6, 10, 16, 40, 150, 300])
    p = rng.choice([0.03, 0.1, 0.4])
    f = lambda: float('%de%d' % (rng.choice([1, 1, 2, 3, 7]), rng.randint(-e, e)))
    g = lambda v: v * f() if v and abs(v) < INF and rng.random() < p else v
    for i in range(lp.m):
        lp.rows[i] = {j: g(v) or v for j, v in lp.rows[i].items()}
        eq = lp.lhs[i] == lp.rhs[i]
        lp.lhs[i] = g(lp.lhs[i]); lp.rhs[i] = lp.lhs[i] if eq else g(lp.rhs[i])
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
    for j in range(lp.n):
        eq = lp.lb[j] == lp.ub[j]
        lp.lb[j] = g(lp.lb[j]); lp.ub[j] = lp.lb[j] if eq else g(lp.ub[j]); lp.c[j] = g(lp.c[j])
        if lp.lb[j] > lp.ub[j]: lp.lb[j], lp.ub[j] = lp.ub[j], lp.lb[j]
    # no number that has become infinite, or an infinite side where there is none
    for a in (lp.lhs, lp.lb): a[:] = [-1e308 if v == INF else v for v in a]
    for a in (lp.rhs, lp.ub): a[:] = [1e308 if v == -INF else v for v in a]
    lp.c = [max(-1e308, min(1e308, v)) for v in lp.c]
    lp.rows = [{j: max(-1e308, min(1e308, v)) for j, v in r.items()} for r in lp.rows]
    lp.fam = 'extreme'
    return lp


def variant(lp, rng):
    """the same problem with a few other numbers (what a caller has in its arrays the next time)"""
    import copy
    q = LP(); q.fam = 'variant'
    for k in ('rows', 'lhs', 'rhs', 'lb', 'ub', 'c', 'x0', 'y0', 'z0'): setattr(q, k, copy.deepcopy(getattr(lp, k)))
    for _ in range(rng.choice([1, 1, 2, 4])):
        t = rng.random()
        d = float(rng.choice([-2, -1, -0.5, 0.5, 1, 2]))
        if q.n and t < 0.4:
            j = rng.randrange(q.n); q.c[j] = rng.choice([-q.c[j], q.c[j] + d, 0.0])
        elif q.n and t < 0.6:
            j = rng.randrange(q.n)
            if q.lb[j] > -INF and rng.random() < 0.5: q.lb[j] -= abs(d)
            elif q.ub[j] < INF: q.ub[j] += abs(d)
        elif q.m and t < 0.8:
            i = rng.randrange(q.m)
            if q.lhs[i] > -INF: q.lhs[i] += d
            if q.rhs[i] < INF: q.rhs[i] += d
        elif q.m:
            i = rng.randrange(q.m)
            if q.rows[i]:
                j = rng.choice(sorted(q.rows[i])); q.rows[i][j] *= rng.choice([2.0, -1.0, 0.5])
    return q


def blocks(rng, count=None):
    """many small problems side by side, and a few rows across them"""
    lp = LP(); lp.fam = 'blocks'
    count = count or rng.randint(8, 40)
    kinds = [lambda: make(rng, spoil_p=0, cost_p=0), lambda: focus(rng, spoil_p=0, cost_p=0), lambda: bins(rng, 0), lambda: hub(rng)]
    one = rng.choice(kinds[:2]) if rng.random() < 0.5 else None
    for _ in range(count):
        b = (one or rng.choice(kinds))()
        off = lp.n
        for r in b.rows: lp.rows.append({j + off: v for j, v in r.items()})
        for f in ('lhs', 'rhs', 'lb', 'ub', 'c', 'x0', 'y0', 'z0'): getattr(lp, f).extend(getattr(b, f))
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.randint(2, 6)
        row = rand_row(lp, rng, k)
        a = sum(v * lp.x0[j] for j, v in row.items())
        if rng.random() < 0.5: lp.add_row(row, a - rng.choice([0, 1, 10]), INF)
        else: lp.add_row(row, -INF, a + rng.choice([0, 1, 10]))
    if rng.random() < 0.05: spoil(lp, rng)
    for i in range(lp.m):
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
    return lp.permute(rng) if rng.random() < 0.7 else lp


def beside(rng, lps):
    """problems side by side"""
    lp = LP(); lp.fam = 'beside'
    for b in lps:
        if lp.n and lp.n + b.n > 24: break
        off = lp.n
        for r in b.rows: lp.rows.append({j + off: v for j, v in r.items()})
        for f in ('lhs', 'rhs', 'lb', 'ub', 'c', 'x0', 'y0', 'z0'): getattr(lp, f).extend(getattr(b, f))
    return lp.permute(rng)


def wild_dton(rng):
    """doubleton equalities whose ratio is, or nearly is, too large to substitute"""
    lp = kernel(rng, rng.randint(1, 3), rng.randint(2, 4))
    for _ in range(rng.randint(1, 2)):
        j = rng.randrange(lp.n)
        k = new_var(lp, rng)
        for i in rng.sample(range(lp.m), rng.randint(1, min(2, lp.m))): mix_into_row(lp, rng, i, k)
        f = float(rng.choice([512, 1000, 1001, 1024, 1500, 2048, 700.5]))
        if rng.random() < 0.5: new_row(lp, rng, {j: coef(rng), k: f * coef(rng)}, 'eq')
        else: new_row(lp, rng, {j: f * coef(rng), k: coef(rng)}, 'eq')
    for _ in range(rng.choice([0, 1, 2])):
        rng.choice(list(EXPANSIONS.values()))(lp, rng)
    lp.set_costs()
    lp.fam = 'wdton'
    for i in range(lp.m):
        if lp.lhs[i] > lp.rhs[i]: lp.lhs[i], lp.rhs[i] = lp.rhs[i], lp.lhs[i]
    return lp.permute(rng)


def focus(rng, spoil_p=0.2, cost_p=0.1):
    """one or two kinds of structure over and over, so that they meet"""
    ks = rng.sample(list(EXPANSIONS), rng.choice([1, 2, 2, 3]))
    w = {k: 8.0 for k in ks}
    return make(rng, weights=w, size=rng.choice([2, 3, 4, 5, 7]), spoil_p=spoil_p, cost_p=cost_p)


def tiny(rng):
    """uniformly random tiny LPs, every shape of side and bound"""
    lp = LP()
    n = rng.randint(1, 3); m = rng.randint(0, 3)
    for _ in range(n):
        lo, hi = rng.choice([(0, INF), (0, 1), (-1, 1), (-INF, INF), (-INF, 0), (1, 1), (0, 2), (1, 2), (-INF, 1), (-1, INF)])
        lp.add_col(float(lo), float(hi), 0.0)
    for _ in range(m):
        r = {j: float(rng.choice([-2, -1, 1, 1, 2])) for j in range(n) if rng.random() < 0.75}
        lo, hi = rng.choice([(0, 0), (1, 1), (-INF, 1), (1, INF), (0, 2), (-INF, 0), (0, INF), (2, 2), (-1, 1), (-1, -1), (-INF, 3)])
        lp.add_row(r, float(lo), float(hi))
    lp.c = [float(rng.choice([-1, 0, 0, 1, 1, 2])) for _ in range(n)]
    lp.fam = 'tiny'
    return lp


def num(v):
    if v == INF: return 'inf'
    if v == -INF: return '-inf'
    if v == int(v): return str(int(v))
    return repr(v)


def rand_settings(rng, lp=None):
    """ston_cols dton_eq parallel_rows parallel_cols primal_propagation finite_bound_tightening dual_fix relax_bounds"""
    if lp is not None and lp.fam == 'wdton':
        # its large coefficients would blow the (absolute) tolerances of derived bounds up
        return [0, 1, rng.randint(0, 1), 0, 0, 0, rng.randint(0, 1), rng.randint(0, 1)]
    t = rng.random()
    if t < 0.45: return [1] * 8
    if t < 0.6:
        s = [1] * 8
        s[rng.randrange(8)] = 0
        return s
    if t < 0.8:
        s = [0] * 8
        for _ in range(rng.choice([1, 1, 2])): s[rng.randrange(8)] = 1
        return s
    return [rng.randint(0, 1) for _ in range(8)]


def emit_case(cid, fam, seed, probs, ops):
    """probs: list of (LP, settings, max_shift, max_time); ops: list of strings"""
    out = ['CASE %d %s %d %d %d' % (cid, fam, seed, len(probs), len(ops))]
    for lp, st, ms, mt in probs:
        Ap, Ai, Ax = lp.emit()
        out.append('%d %d %d %s %d %s' % (lp.m, lp.n, len(Ai), ' '.join(map(str, st)), ms, mt))
        for v in (Ap, Ai): out.append(' '.join(map(str, v)))
        for v in (Ax, lp.lhs, lp.rhs, lp.lb, lp.ub, lp.c): out.append(' '.join(map(num, v)))
    out.append(' '.join(ops))
    return '\n'.join(out) + '\n'
