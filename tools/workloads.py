"""Workloads of the checks: which LPs, settings and API scripts are replayed into the library."""
import random
import lpgen
from lpgen import make, tiny, ill_scaled, rand_settings, emit_case, spoil

MT = 60  # max_time: no time limit in practice


def any_lp(rng, spoil_p=0.25, cost_p=0.15):
    t = rng.random()
    if t < 0.12: return tiny(rng)
    if t < 0.22: return ill_scaled(rng)
    if t < 0.26: return lpgen.scaled_cols(rng)
    if t < 0.29: return lpgen.hub(rng)
    if t < 0.31: return lpgen.fill(rng)
    if t < 0.36: return lpgen.bins(rng, rng.choice([0, 0.08, 0.2]) if spoil_p > 0.2 else 0)
    if t < 0.365: return lpgen.blocks(rng)
    if t < 0.40: return lpgen.decimal(rng)
    if t < 0.41 and spoil_p > 0.2: return lpgen.crossed(rng)
    if t < 0.43: return lpgen.wild_dton(rng)
    if t < 0.45: return lpgen.web(rng)
    if t < 0.455: return lpgen.chain(rng, rng.randint(3, 8))
    if t < 0.458: return lpgen.twins(rng)
    if t < 0.463: return lpgen.pairs(rng)
    if t < 0.470: return lpgen.vast(rng)
    if t < 0.65: return lpgen.focus(rng, spoil_p=spoil_p, cost_p=cost_p)
    return make(rng, spoil_p=spoil_p, cost_p=cost_p)


def case(cid, rng, lp, ops, settings=None, shift=10):
    return emit_case(cid, lp.fam, rng.randrange(1 << 30), [(lp, settings or rand_settings(rng, lp), shift, MT)], ops)


def shift_of(rng):
    return rng.choice([10, 10, 10, 10, 1, 0, 3, 50])


def verdicts(cid, rng):
    """infeasible and unbounded problems, and problems that are nearly so"""
    lp = any_lp(rng, spoil_p=0.7, cost_p=0.35)
    return case(cid, rng, lp, ['N 1 0', 'R 1', 'F 1'], shift=shift_of(rng))


def reduced(cid, rng):
    lp = any_lp(rng)
    return case(cid, rng, lp, ['N 1 0', 'R 1', 'F 1'], shift=shift_of(rng))


def left(cid, rng):
    """what a presolve may have left undone: small problems, few reductions on, often without propagation"""
    if rng.random() < 0.4: lpgen.COEFS = lpgen.POWERS
    if rng.random() < 0.12:
        lp = lpgen.boxed(rng)
        lpgen.COEFS = lpgen.USUAL
        return case(cid, rng, lp, ['N 1 0', 'R 1', 'F 1'], settings=[0, 0, 0, 0, 1, rng.randint(0, 1), 0, rng.randint(0, 1)])
    if rng.random() < 0.03:
        lp = lpgen.pairs(rng) if rng.random() < 0.7 else lpgen.twins(rng)
        lpgen.COEFS = lpgen.USUAL
        return case(cid, rng, lp, ['N 1 0', 'R 1', 'F 1'], settings=[0, 0, 1, 0, 0, 0, 0, 0] if rng.random() < 0.7 else [0, 0, 0, 1, 0, 0, 0, 0])
    for _ in range(4):
        lp = any_lp(rng, spoil_p=0.08, cost_p=0.05)
        if sum(map(len, lp.rows)) <= 45: break
    lpgen.COEFS = lpgen.USUAL
    st = rand_settings(rng, lp)
    if lp.fam != 'wdton' and rng.random() < 0.6:
        st = [0] * 8
        for k in rng.sample([0, 2, 3, 6, 0, 2, 3, 6, 1, 4, 7], rng.choice([1, 1, 2, 3])): st[k] = 1
        if st[4]: st[5] = rng.randint(0, 1)
    return case(cid, rng, lp, ['N 1 0', 'R 1', 'F 1'], settings=st, shift=shift_of(rng))


def inexact(lp):
    # a relative error of a number of 1e10 is no small error
    return 'P 1 0' if lp.fam == 'vast' else 'P 1 5'


def post(cid, rng):
    lp = any_lp(rng, spoil_p=0.12)
    return case(cid, rng, lp, ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'P 1 2', 'P 1 3', inexact(lp), 'F 1'], shift=shift_of(rng))


def post_dual(cid, rng):
    lp = any_lp(rng, spoil_p=0.12)
    return case(cid, rng, lp, ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'P 1 2', 'P 1 1', inexact(lp), 'F 1'], shift=shift_of(rng))


def history(cid, rng, hist):
    """a history generated by TLC from ApiGen: [(op, h, p)], over two problems"""
    lps = [any_lp(rng, spoil_p=0.1) for _ in range(2)]
    if rng.random() < 0.6: lps[1] = lpgen.variant(lps[0], rng)
    probs = [(lp, rand_settings(rng, lp), shift_of(rng), MT) for lp in lps]
    if rng.random() < 0.5: probs[1] = (lps[1],) + probs[0][1:]
    ops = []; alive = []; posted = 0
    for o, h, p in hist:
        if o == 'N': ops.append('N %d %d' % (h, p - 1)); alive.append(h)
        elif o == 'R': ops.append('R %d' % h)
        elif o == 'P': ops.append('P %d %d' % (h, 0 if posted == 0 else rng.choice([4, 4, 0, 1, 2]))); posted += 1
        elif o == 'V': ops.append('V %d' % h)
        elif o == 'F': ops.append('F %d' % h); alive.remove(h)
        elif o == 'X': ops.append('X %d %d' % (h - 1, p - 1))
        elif o == 'S': ops.append('S %d' % (p - 1))
    # the histories end by releasing everything; before that, whoever has a reduced problem
    # answers once more
    for h in list(alive):
        ops.append('V %d' % h); ops.append('P %d 4' % h); ops.append('F %d' % h)
    # and the same problems once more, alone
    for p in (0, 1):
        ops += ['N 3 %d' % p, 'R 3', 'P 3 4', 'F 3']
    return emit_case(cid, 'history', rng.randrange(1 << 30), probs, ops)


def everything(cid, rng):
    """a bit of everything, for the checks that only ask whether calls return"""
    if cid % 400 == 7:
        lp = lpgen.blocks(rng, rng.choice([60, 100, 250]))
        return case(cid, rng, lp, ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'F 1'])
    if rng.random() < 0.04:
        lp = lpgen.extreme(rng)
        return case(cid, rng, lp, ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'F 1'], shift=shift_of(rng))
    if rng.random() < 0.3:
        lps = [any_lp(rng) for _ in range(2)]
        ops = ['N 1 0', 'N 2 1', 'R 2', 'S 0', 'R 1', 'P 1 0', 'P 2 0', 'P 1 3', 'V 2', 'F 1', 'P 2 1', 'F 2', 'N 1 1', 'F 1', 'F 1']
        return emit_case(cid, 'two', rng.randrange(1 << 30), [(lp, rand_settings(rng, lp), shift_of(rng), MT) for lp in lps], ops)
    lp = any_lp(rng)
    talk = ['B 1 0'] if rng.random() < 0.15 else []
    return case(cid, rng, lp, talk + ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'P 1 3', 'F 1'], shift=shift_of(rng))


def alloc_failures(cid, rng):
    """every allocation of the constructor fails once (and some that it never reaches): it alone, with
    all that follow, or with one of those"""
    how = cid % 4
    lp = lpgen.blocks(rng, rng.randint(20, 60)) if cid % 20 == 7 else any_lp(rng)
    mode = rng.choice([1, 1, 2, 2, 0])
    ops = ['T %d' % mode]
    other = rng.random() < 0.3
    if other: ops += ['N 2 0']
    for k in range(1, ALLOCS + 1):
        ops += ['A %d' % (k if how < 2 else -k if how == 2 else k + 1000 * rng.randint(1, 40)), 'N 1 0']
        ops += ['F 1']
    ops += ['N 1 0', 'R 1', 'P 1 0', 'F 1', 'F 1']
    if other: ops += ['R 2', 'P 2 4', 'F 2']
    return case(cid, rng, lp, ops)


ALLOCS = 110  # more than the constructor makes


def thread_failures(cid, rng):
    """the constructor's thread cannot be created; allocations fail on top of it"""
    lp = any_lp(rng)
    ops = ['T 3', 'N 1 0', 'R 1', 'P 1 0', 'F 1']
    for k in sorted(rng.sample(range(1, ALLOCS), 12)): ops += ['A %d' % k, 'N 1 0', 'F 1']
    ops += ['T 0', 'N 1 0', 'R 1', 'P 1 4', 'F 1']
    return case(cid, rng, lp, ops)


def schedules(cid, rng):
    """the constructor's two threads in the extreme orders, and as it comes"""
    lp = any_lp(rng, spoil_p=0.1)
    order = [0, 1, 2]; rng.shuffle(order)
    ops = []
    for m in order: ops += ['T %d' % m, 'N 1 0', 'R 1', 'P 1 4', 'F 1']
    return case(cid, rng, lp, ops)


def time_limit(cid, rng):
    """the time runs out somewhere in a run"""
    if cid % 3 == 0:
        lp = lpgen.ladder(rng)
        st = [1] * 8 if rng.random() < 0.5 else [rng.randint(0, 1), 1, 1] + [rng.randint(0, 1) for _ in range(5)]
    elif cid % 3 == 1:
        lp = lpgen.chain(rng)
        st = [1, 0] + [rng.randint(0, 1) for _ in range(6)]
    else:
        lp = any_lp(rng, spoil_p=0.12)
        st = rand_settings(rng, lp)
    mt = rng.choice([60, 60, 1, 2.5, 0.25, 1000])
    ops = []
    for h in (1, 2, 3, 4):
        if h < 4:
            k = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 17, 20, 24, 30, 40, 80])
            ms = int(mt * 1000)
            ms = rng.choice([ms, ms, 2 * ms, 100000000, 100000000, ms - 1, ms // 2])
            if rng.random() < 0.2: ops.append('K %d %d' % (rng.choice([1, 2, 2, 2, 3]), ms))
            ops += ['N %d 0' % h, 'K %d %d' % (k, ms)]
        else: ops += ['N 4 0']
        ops.append('R %d' % h)
        if rng.random() < 0.2: ops.append('K %d %d' % (rng.choice([1, 2, 2, 2, 3]), ms))
        ops += ['P %d %d' % (h, rng.choice([0, 1, 2])), 'F %d' % h]
    return emit_case(cid, lp.fam, rng.randrange(1 << 30), [(lp, st, shift_of(rng), mt)], ops)


def settings(cid, rng):
    """few reductions switched on, on problems that offer all of them"""
    lp = any_lp(rng) if rng.random() < 0.7 else lpgen.beside(rng, [any_lp(rng, spoil_p=0.1) for _ in range(rng.choice([2, 2, 3]))])
    t = rng.random()
    st = [0] * 8
    if t > 0.35:
        for k in rng.sample(range(8), rng.choice([1, 1, 2, 3])): st[k] = 1
    if t > 0.97: st = rand_settings(rng, lp)
    if t > 0.85: st = [0] * 8; st[4] = 1; st[5] = int(t > 0.95); st[2] = rng.randint(0, 1)
    ops = ['D %d' % rng.randint(0, 99), 'N 1 0', 'R 1', 'P 1 4', 'F 1']
    if rng.random() < 0.15: ops += ['B 1 0', 'N 1 0', 'R 1', 'P 1 4', 'F 1']
    return case(cid, rng, lp, ops, settings=st, shift=shift_of(rng))


def threads(cid, rng):
    """presolvers at work in several threads at the same time, and alone before and after"""
    n = rng.choice([2, 2, 3])
    gen = lambda: lpgen.blocks(rng, rng.randint(2, 6)) if rng.random() < 0.3 else any_lp(rng, spoil_p=0.1)
    lps = [gen() for _ in range(n)]
    probs = [(lp, [1] * 8 if rng.random() < 0.6 else rand_settings(rng, lp), shift_of(rng), MT) for lp in lps]
    ops = []
    for p in range(n): ops += ['N %d %d' % (p + 1, p), 'R %d' % (p + 1), 'P %d 4' % (p + 1)]
    # some of these answer in a thread, some are released first
    kept = [p + 1 for p in range(n) if rng.random() < 0.5]
    for p in range(n):
        if p + 1 not in kept: ops += ['F %d' % (p + 1)]
    for t in range(1, 5):
        ops += ['Q %d' % t]
        p = (t - 1) % n
        for _ in range(rng.choice([1, 2, 2, 3])):
            if t in kept: ops += ['P %d 4' % t, 'F %d' % t]; kept.remove(t)
            ops += ['N %d %d' % (t, p), 'R %d' % t, 'P %d 4' % t, 'F %d' % t]
    ops += ['Q 0']
    for p in range(n): ops += ['N %d %d' % (p + 1, p), 'R %d' % (p + 1), 'P %d 4' % (p + 1), 'F %d' % (p + 1)]
    return emit_case(cid, 'threads', rng.randrange(1 << 30), probs, ops)


class Small:
    """a problem of a small scope, written by TLC"""
    fam = 'small'
    def __init__(self, p):
        f = lambda v: {'inf': lpgen.INF, '-inf': -lpgen.INF}.get(v) or float(v)
        self.m, self.n, self.rows = p['m'], p['n'], p['A']
        self.lhs, self.rhs, self.lb, self.ub, self.c = (list(map(f, p[k])) for k in ('lhs', 'rhs', 'lb', 'ub', 'c'))

    def emit(self):
        Ap, Ai, Ax = [0], [], []
        for r in self.rows:
            for j, v in r: Ai.append(j - 1); Ax.append(float(v))
            Ap.append(len(Ai))
        return Ap, Ai, Ax


# ------------------------------------------------------------------------------ corpus
class Kept:
    """a problem kept from an earlier failure: it stands in for a generated one"""
    def __init__(self, fam, lines, settings, shift):
        self.fam, self.lines, self.settings, self.shift = fam, lines, settings, shift


def read_corpus():
    """the problems of all cases in corpus/*.txt"""
    import glob, os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus')
    res = []
    for f in sorted(glob.glob(d + '/*.txt')):
        L = open(f).read().split('\n')
        i = 0
        while i < len(L):
            if not L[i].startswith('CASE'): i += 1; continue
            np = int(L[i].split()[4]); i += 1
            for _ in range(np):
                h = L[i].split()
                res.append(Kept(os.path.basename(f)[:-4], L[i:i + 9], list(map(int, h[3:11])), int(h[11])))
                i += 9
    return res


def corpus_cases(gen):
    """every kept problem with its own settings, and with the calls of the given workload"""
    out = []
    for k in read_corpus():
        ops = {'verdicts': ['N 1 0', 'R 1', 'F 1'], 'reduced': ['N 1 0', 'R 1', 'F 1']}.get(gen.__name__, ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'P 1 2', 'P 1 3', 'F 1'])
        for seed in (1, 2):
            out.append('CASE %d %s %d 1 %d\n%s\n%s\n' % (len(out), k.fam, seed, len(ops), '\n'.join(k.lines), ' '.join(ops)))
    return out
