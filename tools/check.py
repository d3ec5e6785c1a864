#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property of PSLP.

Generates API scripts (from the specification or the workload generator), replays them into the
library built from the working tree of /repo, and lets TLC decide whether the recorded traces are
behaviours of the specification on which the property holds.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PSLP_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'evidence'))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import workloads as W
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'


MAX_LOST = 6  # a driver gives up after this many calls that did not return


class ToolError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in (REPO + '/src', REPO + '/include', VERIF + '/driver'):
        for r, _, fs in os.walk(d):
            files += [os.path.join(r, f) for f in fs]
    files.append(HERE + '/build.sh')
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def build(variant):
    out = os.path.join(BUILD, '%s-%s' % (variant, tree_hash()))
    if not os.path.exists(out + '/drive'):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['bash', HERE + '/build.sh', variant, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise ToolError('cannot build variant %s:\n%s' % (variant, r.stdout[-3000:]))
        # older builds of this variant are of no use any more
        for o in glob.glob(os.path.join(BUILD, variant + '-*')):
            if o != tmp and '.tmp' not in o: shutil.rmtree(o, ignore_errors=True)
        os.rename(tmp, out)
    return out + '/drive'


def runnable(variant):
    """how to start the driver of this variant; a sanitizer may not get the address space it wants"""
    drive = build(variant)
    if variant not in ('tsan', 'vg'): return drive
    with tempfile.TemporaryDirectory(prefix='pslp-try-', dir='/tmp') as d:
        open(d + '/in', 'w').close()
        for start in ['valgrind -q --error-limit=no --leak-check=no ' + drive] if variant == 'vg' else [drive, 'setarch -R ' + drive]:
            if subprocess.run(start.split() + [d + '/in', d + '/out'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0: return start
    return None


def classes():
    out = os.path.join(BUILD, 'cls')
    src = sorted(glob.glob(VERIF + '/java/*.java'))
    mark = out + '/' + hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:12]
    if not os.path.exists(mark):
        os.makedirs(out, exist_ok=True)
        subprocess.run(['javac', '-cp', JAR, '-d', out] + src, check=True)
        open(mark, 'w').close()
    return out


def tlc(module, cfg_text, work, name, env=None, opts=(), workers=1, xmx='2500m', timeout=3600):
    cfg = os.path.join(work, name + '.cfg')
    open(cfg, 'w').write(cfg_text)
    e = dict(os.environ, PSLP_CLS=classes(), TLC_XMX=xmx)
    e.update(env or {})
    r = subprocess.run(['bash', HERE + '/tlc.sh', module, cfg, os.path.join(work, 'meta-' + name), '-workers', str(workers)] + list(opts),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
    shutil.rmtree(os.path.join(work, 'meta-' + name), ignore_errors=True)
    return r.stdout


STATES = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')


def tlc_ok(out):
    m = STATES.search(out)
    if not m or 'Finished in' not in out: raise ToolError('TLC did not finish:\n' + out[-3000:])
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def trace_cfg(invs):
    return ('SPECIFICATION TraceSpec\nCONSTANTS Handles = {1, 2, 3, 4}\n Problems = {1, 2, 3, 4}\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
            % ' '.join(invs))


def violations_of(out, ids):
    """(invariant, case id, event) of every violation TLC reports"""
    res = []
    blocks = re.split(r'^Error: (?=Invariant|Evaluating invariant)', out, flags=re.M)
    for b in blocks[1:]:
        name = re.match(r'(?:Invariant|Evaluating invariant) (\w+)', b).group(1)
        t = re.findall(r'/\\ tid = (\d+)', b); l = re.findall(r'/\\ l = (\d+)', b)
        if not t: raise ToolError('cannot read this TLC report:\n' + b[:2000])
        res.append((name, ids[int(t[-1]) - 1], int(l[-1]) - 1))
    rest = [x for x in re.findall(r'^Error: .*$', out, flags=re.M)
            if not re.match(r'Error: (Invariant|Evaluating invariant|The behavior up to this point|The following)', x)]
    if rest: raise ToolError('TLC error: %s\n%s' % (rest[0], out[-3000:]))
    return res


def run_chunk(job):
    """replay the cases, validate the traces; returns (violations, states, transitions, coverage)"""
    drive, cases, invs, work, name, module, env = job
    cf_, tf = os.path.join(work, name + '.txt'), os.path.join(work, name + '.nd')
    open(cf_, 'w').write(''.join(cases))
    r = subprocess.run(drive.split() + [cf_, tf], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=3600,
                       env=dict(os.environ, CASE_TIMEOUT='10', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:symbolize=0', UBSAN_OPTIONS='symbolize=0', TSAN_OPTIONS='halt_on_error=1:symbolize=0:history_size=4', MAX_LOST=str(MAX_LOST), **env))
    if r.returncode: raise ToolError('driver: exit %d\n%s' % (r.returncode, r.stderr[-2000:]))
    ids = []; cov = {}; distinct = set()
    for line in open(tf):
        ids.append(int(re.match(r'\{"id":(\d+)', line).group(1)))
        for st in re.findall(r'"ev":"Run","h":\d+,"p":\d+,"status":(\d+)', line): cov['run_status_' + st] = cov.get('run_status_' + st, 0) + 1
        for e in re.findall(r'"ev":"(\w+)"', line): cov['ev_' + e] = cov.get('ev_' + e, 0) + 1
        distinct.add(hashlib.sha256(line.split('"ev":[')[0].split('"probs"')[1].encode()).hexdigest())
    if len(ids) != len(cases) and sum('"lost":' in x for x in open(tf)) < MAX_LOST: raise ToolError('driver wrote %d traces for %d cases' % (len(ids), len(cases)))
    out = tlc(module, trace_cfg(invs), work, name, env={'TRACE': tf}, opts=['-continue'])
    v = violations_of(out, ids)
    st, di = tlc_ok(out)
    n = len(ids)
    os.remove(tf)
    return v, di, st - n, n, cov, distinct


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='pslp-%s-' % prop, dir='/tmp')
        self.states = self.trans = self.traces = 0
        self.cov = {}; self.samples = []; self.distinct = set()
        self.viol = []   # (what, case text)
        self.known = self.read_known()
        self.extra = {}
        self.confirmed = set()

    def read_known(self):
        k = {}
        p = VERIF + '/known_findings.txt'
        for line in open(p) if os.path.exists(p) else []:
            m = re.match(r'finding: property=(\w+) case=(\w+) (.*)', line)
            if m and m.group(1) == self.prop: k[m.group(2)] = m.group(3)
        return k

    def replay_and_validate(self, variant, cases, invs, module='PslpTrace', env=None, tag=''):
        """cases: list of case texts whose ids are their indices"""
        drive = runnable(variant)
        if drive is None:
            print('note: %s does not run here' % variant)
            self.extra[variant] = 'does not run here'
            return
        per = max(1, min(1500, (len(cases) + NPROC - 1) // NPROC))
        jobs = [(drive, cases[i:i + per], invs, self.work, '%s%s%d' % (variant, tag, i), module, env or {}) for i in range(0, len(cases), per)]
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for v, di, tr, n, cov, dis in ex.map(run_chunk, jobs):
                self.states += di; self.trans += tr; self.traces += n; self.distinct |= dis
                for k, c in cov.items(): self.cov[k] = self.cov.get(k, 0) + c
                for name, cid, ev in v: self.viol.append(('%s at event %d' % (name, ev), cases[cid]))
        if cases: self.samples.append(cases[len(cases) // 3])
        self.confirm(drive, invs, module, env or {}, variant + tag)

    def confirm(self, drive, invs, module, env, name):
        """a rejection counts when a re-run of the case repeats it"""
        keep = []; tried = {}
        for what, text in self.viol:
            if text in self.confirmed: keep.append((what, text)); continue
            if text not in tried and len(tried) < 8:
                one = re.sub(r'^CASE \d+', 'CASE 0', text)
                tried[text] = any(run_chunk((drive, [one], invs, self.work, 'again-' + name, module, env))[0] for _ in range(3))
            if tried.get(text, False):
                self.confirmed.add(text); keep.append((what, text))
            elif text in tried: print('note: not repeated: ' + what)
        self.viol = keep

    def finish(self, level='model_checking', assumptions=()):
        os.makedirs(OUT + '/replay', exist_ok=True)
        new = []
        for what, text in sorted(self.viol, key=lambda v: len(v[1])):
            h = hashlib.sha256(text.split('\n', 1)[1].encode() if text.startswith('CASE') else text.encode()).hexdigest()[:16]
            if h in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[h]))
            else: new.append((what, text, h))
        seen = set()
        for what, text, h in new:
            if h in seen: continue
            seen.add(h)
            if len(seen) > 5: break
            f = OUT + '/replay/%s-%s.txt' % (self.prop, h)
            open(f, 'w').write(text)
            print('VIOLATION property=%s replay=%s' % (self.prop, f))
            print('  ' + what)
        cov = {'states': self.states, 'transitions': self.trans, 'traces_validated_against_impl': self.traces,
               'distinct_inputs': len(self.distinct), 'samples': [s[:1500] for s in self.samples[:3]], 'events': self.cov}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new), 'assumptions': list(assumptions)}
        json.dump(ev, open(OUT + '/%s.json' % self.prop, 'w'), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s %s: %d traces, %d states, %d violations, %.1f s' % (self.prop, self.tier, self.traces, self.states, len(new), time.time() - self.t0))
        return 1 if new else 0


def generated(c, gen, invs, quick, variant='rel', tag='', limit=None):
    """cases from a generator; the thorough tier goes on with new cases until its time is up"""
    n = quick
    rnd = 0
    if c.viol: return
    corpus = W.corpus_cases(gen) if tag == '' else []
    if corpus:
        c.extra['corpus_cases'] = len(corpus)
        c.replay_and_validate(variant, corpus, invs, tag='corpus-')
    limit = limit or float(os.environ.get('VERIF_THOROUGH_S', '780'))
    while True:
        rng = random.Random('%s/%s/%d/%d' % (c.prop, tag, c.seed, rnd))
        t = time.time()
        c.replay_and_validate(variant, [gen(i, rng) for i in range(n)], invs, tag='%s%d-' % (tag, rnd))
        rnd += 1
        if c.tier == 'quick' or c.viol: break
        if time.time() - c.t0 + (time.time() - t) > limit: break


def design(c, quick, thorough):
    """the reductions as specified (Presolve.tla) are sound on problems of a small scope, in every order"""
    for k, (rows, cols, n) in enumerate(quick if c.tier == 'quick' else thorough):
        lo = 1000003 * c.seed % 15485863
        out = tlc('Presolve', 'SPECIFICATION Spec\nCONSTANTS Rows = %d\n Cols = %d\n Lo = %d\n Hi = %d\n Sampled = TRUE\n MaxTighten = 2\nINVARIANTS Decided Sound\nPROPERTY Shrinks\nCHECK_DEADLOCK FALSE\n'
                  % (rows, cols, lo, lo + n - 1), c.work, 'design%d' % k, workers=NPROC, xmx='8g')
        st, di = tlc_ok(out)
        if 'is violated' in out: raise ToolError('the specification is not sound:\n' + out[-4000:])
        c.states += di; c.trans += st
        c.extra['design_%dx%d' % (rows, cols)] = '%d problems, %d states' % (n, di)


def model(c, module, constants, invariants, properties):
    """a design-level specification, all of its behaviours"""
    out = tlc(module, 'SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n' % ('\n '.join(constants), ' '.join(invariants), ' '.join(properties)),
              c.work, module.lower(), workers=NPROC, xmx='8g')
    st, di = tlc_ok(out)
    if 'is violated' in out or 'were violated' in out: raise ToolError('%s does not have its properties:\n%s' % (module, out[-4000:]))
    c.states += di; c.trans += st
    c.extra['design_' + module] = '%d states' % di


def phases(c):
    model(c, 'Phases', ['MaxNnz = %d' % (3 if c.tier == 'quick' else 6), 'Fast = 95', 'Cycle = 95'], ['Ledger', 'InBounds', 'Off', 'Punctual', 'Complete', 'Settled'], ['Ends'])


def construction(c):
    model(c, 'Build', ['MaxFailures = %d' % (2 if c.tier == 'quick' else 8)], ['NoRace', 'Defined', 'SameObject', 'NullIfFailed', 'Once', 'NoThreadLeft'], ['Returns', 'AllReleased'])


def small_problems(c, rows, cols, off, stride, count, sampled):
    """problems of a small scope, enumerated by TLC (SmallGen)"""
    name = 'small%d%d-%d' % (rows, cols, off)
    nd = os.path.join(c.work, name + '.nd')
    tlc_ok(tlc('SmallGen', 'INIT Init\nNEXT Next\nCONSTANTS Rows = %d\n Cols = %d\n Off = %d\n Stride = %d\n Count = %d\n Sampled = %s\n'
               % (rows, cols, off, stride, count, 'TRUE' if sampled else 'FALSE'), c.work, name, env={'OUT': nd}))
    res = [W.Small(json.loads(l)) for l in open(nd)]
    os.remove(nd)
    key = 'small_scope_%dx%d%s' % (rows, cols, '_sampled' if sampled else '')
    c.extra[key] = c.extra.get(key, 0) + len(res)
    return res


def small_scopes(c, ops, invs, variant='rel', quick=2500):
    """the small scopes, replayed: exhaustively the smallest, slices of the others"""
    S = c.seed
    if c.tier == 'quick':
        parts = [(1, 1, 0, 1, 504, False), (2, 1, S % 6, 6, 9999, False), (1, 2, S % 15, 15, 9999, False),
                 (2, 2, S % 1625, 4064256 // quick, quick, False), (3, 3, 7919 * S % 1000003, 1, quick, True), (2, 4, 104729 * S % 1000003, 1, quick, True)]
    else:
        parts = [(1, 1, 0, 1, 504, False), (2, 1, 0, 1, 99999, False), (1, 2, 0, 1, 99999, False), (2, 2, S % 101, 101, 99999, False)]
        parts += [(m, n, 7919 * S % 1000003, 1, 15000, True) for m, n in ((3, 3), (2, 4), (4, 3), (4, 4), (3, 5), (1, 4))]
    rng = random.Random('small/%s/%d' % (c.prop, S))
    for k, a in enumerate(parts):
        if c.viol: return
        lps = small_problems(c, *a)
        cases = [W.emit_case(i, 'small', rng.randrange(1 << 30), [(lp, W.rand_settings(rng), 10, W.MT)], ops) for i, lp in enumerate(lps)]
        c.replay_and_validate(variant, cases, invs, tag='small%d-' % k)


def shared(c, gen, parts):
    """the same workload in several builds, which share the time of the thorough tier"""
    total = float(os.environ.get('VERIF_THOROUGH_S', '780'))
    for k, (variant, tag, quick, invs) in enumerate(parts):
        if c.viol: return
        generated(c, gen, invs, quick, variant=variant, tag=tag, limit=total * (k + 1) / len(parts))


def histories(c, length):
    out = tlc('ApiGen', 'SPECIFICATION GenSpec\nCONSTANTS Handles = {1, 2}\n Problems = {1, 2}\n MaxLen = %d\nINVARIANTS Emit TypeOK\nCHECK_DEADLOCK FALSE\n' % length,
              c.work, 'apigen%d' % length, workers=NPROC, xmx='6g')
    st, di = tlc_ok(out)
    if 'is violated' in out: raise ToolError('ApiGen: ' + out[-2000:])
    hs = []
    for line in out.splitlines():
        line = line.strip('"')
        if line.startswith('HIST'):
            hs.append([(a, int(b), int(d)) for a, b, d in (o.split(',') for o in line.split()[1:])])
    hs.sort()
    c.states += di; c.trans += st
    c.extra['histories_enumerated_len%d' % length] = len(hs)
    return hs


INPUTS = 'inputs: CSR with sorted unique columns, finite nonzero coefficients, lhs <= rhs and lb <= ub as the API assumes'
ORACLE = 'the Rat override (java/Rat.java) computes exact rational arithmetic (RatTest checks it against TLC integers)'


RUN = ['N 1 0', 'R 1', 'F 1']
POST = ['N 1 0', 'R 1', 'P 1 0', 'P 1 1', 'P 1 2', 'P 1 3', 'P 1 5', 'F 1']


def c01(c):
    small_scopes(c, RUN, ['AcceptedRun', 'InfeasibleSound'])
    generated(c, W.verdicts, ['AcceptedRun', 'InfeasibleSound'], 80000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'an infeasible verdict is refuted by an exact optimum or ray of the original problem'])


def c02(c):
    small_scopes(c, RUN, ['AcceptedRun', 'UnbndOrInfeasSound'])
    generated(c, W.verdicts, ['AcceptedRun', 'UnbndOrInfeasSound'], 80000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'the verdict is refuted by an exact primal-dual optimum of the original problem'])


def c03(c):
    design(c, [(2, 2, 60)], [(2, 2, 600), (2, 3, 60), (3, 2, 100)])
    small_scopes(c, RUN, ['AcceptedRun', 'Equivalent'])
    generated(c, W.reduced, ['AcceptedRun', 'Equivalent'], 80000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'relative tolerance 1e-4 (the library works with a 1e-6 feasibility tolerance)'])


def c04(c):
    small_scopes(c, POST, ['AcceptedPost', 'PostPrimal'])
    generated(c, W.post, ['AcceptedPost', 'PostPrimal'], 48000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'relative tolerance 1e-4'])


def c05(c):
    small_scopes(c, POST, ['AcceptedPost', 'PostDual'])
    generated(c, W.post_dual, ['AcceptedPost', 'PostDual'], 48000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'relative tolerance 1e-4'])


def c06(c):
    phases(c)
    small_scopes(c, RUN, ['AcceptedRun', 'ShapeNew', 'ShapeRun', 'Exhausted'])
    generated(c, W.reduced, ['AcceptedRun', 'ShapeNew', 'ShapeRun', 'Exhausted'], 60000, limit=0.85 * float(os.environ.get('VERIF_THOROUGH_S', '780')))
    generated(c, W.time_limit, ['AcceptedRun', 'ShapeNew', 'ShapeRun', 'TimesTrue'], 2400, variant='wrap', tag='t')
    return c.finish(assumptions=[INPUTS, ORACLE, 'the library reads the time with clock_gettime'])


def hist_cases(c, quick, pick, tag, length=6):
    hs = [h for h in histories(c, length) if pick(h)]
    rng = random.Random('%s/%s/%d' % (c.prop, tag, c.seed))
    rng.shuffle(hs)
    if c.tier == 'quick': hs = hs[:quick]
    return [W.history(i, rng, h) for i, h in enumerate(hs)]


def c07(c):
    scribbles = lambda h: any(o[0] in 'SX' for o in h)
    L = 6 if c.tier == 'quick' else 7
    cases = hist_cases(c, 4000, scribbles, 's', L)
    invs = ['Accepted', 'InputIntact', 'SameRun', 'SamePost', 'SameView']
    c.replay_and_validate('wrap', cases, invs)
    c.replay_and_validate('asan', cases[:len(cases) // 2], invs)
    generated(c, W.post, ['InputIntact'], 8000, variant='rel')
    return c.finish(assumptions=[INPUTS, 'the settings object stays alive (it is not one of the deep copies)'])


def c08(c):
    L = 6 if c.tier == 'quick' else 7
    cases = hist_cases(c, 6316, lambda h: True, 'h', L)
    c.replay_and_validate('wrap', cases, ['Accepted', 'SameRun', 'SamePost', 'SameView', 'Ledger'])
    return c.finish(assumptions=[INPUTS, 'fresh memory is filled with a fixed pattern, so a value read before it is written shows'])


def c09(c):
    generated(c, W.settings, ['Accepted', 'OffMeansOff', 'OnlyTrivial', 'PartsKept', 'FiniteBoundsKept', 'Silent', 'Reported', 'DefaultsRight', 'SameRun', 'SamePost'], 24000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'which reductions find something is decided by the specification (Trivial.tla), with a margin of 1e-3'])


def c10(c):
    construction(c)
    order = [('wrap', 's', 12000, ['Accepted', 'SameRun', 'SamePost', 'Ledger']), ('tsan', 'r', 6000, ['Accepted', 'SameRun', 'SamePost'])]
    shared(c, W.schedules, order)
    return c.finish(assumptions=[INPUTS])


def c11(c):
    construction(c)
    generated(c, W.alloc_failures, ['Accepted', 'Builds', 'Ledger', 'SameRun', 'SamePost'], 400, variant='wrap', tag='a')
    if not c.viol: c.replay_and_validate('wrap', [W.thread_failures(i, random.Random('t%d/%d' % (c.seed, i))) for i in range(2000)],
                          ['Accepted', 'Builds', 'Ledger', 'SameRun', 'SamePost'], tag='t')
    return c.finish(level='model_checking', assumptions=[INPUTS])


def c12(c):
    shared(c, W.everything, [('asan', '', 24000, ['Accepted']), ('vg', 'v', 2400, ['Accepted'])])
    return c.finish(assumptions=[INPUTS, 'AddressSanitizer and UndefinedBehaviorSanitizer turn a memory error into a call that does not return'])


def c13(c):
    phases(c)
    generated(c, W.time_limit, ['Accepted', 'StopsSoon', 'SameRun', 'InfeasibleSound', 'UnbndOrInfeasSound', 'Equivalent', 'ShapeRun', 'PostPrimal', 'PostDual'], 12000, variant='wrap')
    return c.finish(assumptions=[INPUTS, ORACLE, 'the library reads the time with clock_gettime', 'one round of reductions reads the clock at most 32 times'])


def c14(c):
    invs = ['Accepted', 'SameRun', 'SamePost']
    shared(c, W.threads, [('tsan', 'r', 4000, invs), ('rel', 'p', 4000, invs)])
    return c.finish(assumptions=[INPUTS, 'ThreadSanitizer turns two unordered accesses to the same memory into a call that does not return'])


def c15(c):
    phases(c)
    invs = ['AcceptedRun', 'NothingLeft', 'NothingMissed']
    small_scopes(c, RUN, invs)
    generated(c, W.left, invs, 60000)
    return c.finish(assumptions=[INPUTS, ORACLE, 'at most 18 nonzeros are left and 33 rows and columns were given, where the claims are exact'])


CHECKS = {k.upper(): v for k, v in list(globals().items()) if re.match(r'c\d\d$', k)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    c = Check(a.prop, a.tier)
    try:
        rc = CHECKS[a.prop](c)
    except ToolError as e:
        print('TOOL ERROR: %s' % e)
        rc = 3
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
