#!/usr/bin/env python3
"""check.py PROPERTY            decide a property (VERIF_SEED, VERIF_TIER)
check.py --replay FILE [N]     run a replay file against /repo's current tree
check.py --setup               build everything once, to see that it builds"""
import hashlib, itertools, json, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import build as B
import props
from shrink import shrink

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
T0 = time.time()
HARD = 840.0 if TIER == 'quick' else 3 * 3600.0   # never run past this
NPROC = os.cpu_count() or 4

def left(): return T0 + HARD - time.time()
def say(*a): print(*a, flush=True)

# ---------------------------------------------------------------- targets
class Target:
    """One built binary and the profile to run it with."""
    def __init__(self, label, thunk, profile, weight=1, chunk=4, timeout=40, threads=1,
                 nontrivial=None):
        self.label, self.thunk, self.profile = label, thunk, profile
        self.weight, self.chunk, self.timeout, self.threads = weight, chunk, timeout, threads
        self.nontrivial = nontrivial
        self.bin, self.err = None, ''
        self.next = 0

def gc_target(variant, mode, profile, **kw):
    t = Target('%s-%s' % (variant, mode), lambda: B.build_gc(variant, mode), profile, **kw)
    return t

def unit_target(u, **kw):
    tag = u.get('tag', '')
    t = Target('unit-%s%s-%s%s' % (u['name'], tag, u.get('mode', 'dbg'), '' if u.get('san', True) else '-nosan'),
               lambda: B.build_unit(u['name'], u.get('flags', ()),
                                    tag + ('' if u.get('san', True) else '.nosan'),
                                    u.get('src', ()), u.get('cc', 'gcc'), u.get('mode', 'dbg'),
                                    u.get('san', True), u.get('libs', ())),
               u.get('profile', 'all'), chunk=u.get('chunk', 200), timeout=u.get('timeout', 40),
               weight=u.get('weight', 1), **kw)
    return t

def targets_of(p):
    ts = []
    for g in p.get('gc', []):
        modes = g.get('modes', ['opt', 'dbg'])
        for v in g['variants']:
            for m in modes:
                ts.append(gc_target(v, m, g['profile'], weight=g.get('weight', 1),
                                    chunk=g.get('chunk', 4), nontrivial=g.get('nontrivial')))
    for u in p.get('units', []):
        ts.append(unit_target(u, nontrivial=u.get('nontrivial')))
    return ts

# ---------------------------------------------------------------- failures
INCONCLUSIVE = re.compile(r'harness:|Cannot allocate memory.*harness|pthread_create')
def norm(msg):
    ls = [l for l in msg.split('\n') if 'FZFAIL' in l or 'ssert' in l or 'rror' in l or 'signal' in l]
    m = ' '.join(ls) if ls else msg
    return re.sub(r'0x[0-9a-f]+|\b[0-9a-f]{4,}\b|\d+', '#', m)[-300:].strip()

def replay_once(binary, path, timeout):
    try:
        p = subprocess.run([binary, 'run', path, str(timeout)], capture_output=True,
                           timeout=timeout + 60, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 2, 'timeout'

def replay_many(binary, path, timeout, n, want=None):
    """Run a case n times, 8 at a time; stop early once two runs fail."""
    from concurrent.futures import ThreadPoolExecutor
    res = []
    def one(_):
        if want and sum(r[0] in want for r in res) >= 2: return
        res.append(replay_once(binary, path, timeout))
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, range(n)))
    return res

def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)['findings']

class Run:
    def __init__(self, pid, p):
        self.pid, self.p = pid, p
        self.rows = []            # per-case records
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.candidates = []
        self.unconfirmed = []
        self.inconclusive = 0
        self.violation = None
        self.notes = []
        self.procs = set()
        self.regress = 0

    # -- corpus of earlier failures
    def run_corpus(self, tmap):
        d = os.path.join(VERIF, 'corpus', self.pid)
        jobs = []
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith('.case'): jobs.append(os.path.join(d, f))
        from concurrent.futures import ThreadPoolExecutor
        def one(path):
            with open(path) as f: first = f.readline().split()
            want = first[2:] if first[:2] == ['#', 'for:'] else []
            out = []
            for t in tmap:
                if t.bin and (not want or any(re.fullmatch(w, t.label) for w in want)):
                    if self.stop.is_set(): return
                    rc, msg = replay_once(t.bin, path, 60)
                    with self.lock: self.regress += 1
                    if rc == 1 and not INCONCLUSIVE.search(msg):
                        self.consider(t, None, path, msg, rc)
        with ThreadPoolExecutor(NPROC) as ex: list(ex.map(one, jobs))

    # -- generated cases
    def worker(self, it, deadline):
        while not self.stop.is_set() and time.time() < deadline:
            try: t, seed, count = next(it)
            except StopIteration: return
            budget = max(0.5, deadline - time.time())
            cmd = [t.bin, 'fuzz', t.profile, str(seed), str(count), str(t.timeout), '%.1f' % budget]
            pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, errors='replace')
            with self.lock: self.procs.add(pr)
            for line in pr.stdout:
                if self.stop.is_set(): break
                try: d = json.loads(line)
                except ValueError: continue
                self.record(t, d)
            if self.stop.is_set():
                try: pr.kill()
                except OSError: pass
            pr.wait()
            with self.lock: self.procs.discard(pr)

    def record(self, t, d):
        with self.lock:
            d['target'] = t.label
            d['_t'] = t
            self.rows.append(d)
        if not d['ret']: return
        msg = d.get('msg', '')
        if d['ret'] == 3 or INCONCLUSIVE.search(msg):
            with self.lock:
                self.inconclusive += 1
                self.notes.append('inconclusive %s seed %d: %s' % (t.label, d['seed'], norm(msg)))
            return
        self.consider(t, d['seed'], None, msg, d['ret'])

    confirm_lock = threading.Lock()
    def consider(self, t, seed, path, msg, ret):
        with self.confirm_lock:
            if self.stop.is_set(): return
            if path is None:
                path = os.path.join(EVID, 'cand-%s-%s-%d.case' % (self.pid, t.label, seed))
                text = subprocess.run([t.bin, 'gen', t.profile, str(seed)], capture_output=True,
                                      text=True).stdout
                with open(path, 'w') as f: f.write('# for: %s\n%s' % (re.escape(t.label), text))
                own = True
            else: own = False
            say('candidate: %s %s seed=%s ret=%d %s' % (self.pid, t.label, seed, ret, norm(msg)))
            if ret == 2:
                n, to, want = 4, 60, (1, 2)
                if left() < 150: n = 0
            else:
                n, to, want = 24, 60, (1,)
            res = replay_many(t.bin, path, to, n, want) if n else []
            bad = [r for r in res if r[0] in want and not INCONCLUSIVE.search(r[1])]
            say('  replayed %d times: %d failing' % (len(res), len(bad)))
            need = 2 if ret == 2 else 1
            if len(bad) >= need:
                self.violation = (t, seed, path, (bad[0][1] if ret == 1 else msg), ret, len(bad), len(res))
                self.halt()
                return
            self.unconfirmed.append((t, seed, path, msg, ret))
            same = [u for u in self.unconfirmed if u[4] == 1 and norm(u[3]) == norm(msg)]
            if ret == 1 and len(same) >= 3:
                self.violation = (t, seed, path, msg, ret, 0, len(res))
                self.halt()

    def halt(self):
        self.stop.set()
        with self.lock:
            for pr in self.procs:
                try: pr.kill()
                except OSError: pass

def finish(run, pid, p, code):
    rows = run.rows
    nt_default = p.get('nontrivial', lambda d: True)
    seen, samples, per = set(), [], {}
    agg = {}
    excluded = 0
    evals = distinct = 0
    for d in rows:
        t = d['_t']
        nt = (t.nontrivial or nt_default)
        n = d.get('batch', 1)
        evals += n
        per[d['target']] = per.get(d['target'], 0) + n
        for k, v in d.items():
            if isinstance(v, int) and k not in ('seed', 'ret', 'threads', 'nops', 'batch'):
                agg[k] = agg.get(k, 0) + v
        if 'batch' in d:
            # Unit drivers report a batch of consecutive seeds and say how many of
            # those cases met the driver's own NONTRIVIAL rule.
            ok = d['ret'] == 0 and d.get('nontrivial', 0) > 0
            n_seen = d.get('nontrivial', 0)
        else:
            n_seen = 1
            try: ok = d['ret'] == 0 and nt(d)
            except KeyError: ok = False
        if ok:
            key = (d['target'], t.profile, d['seed'], d.get('opts'))
            if key not in seen:
                seen.add(key)
                distinct += n_seen
                if len(samples) < 5 and (len(seen) % 37 == 1 or len(samples) < 2):
                    txt = subprocess.run([t.bin, 'gen', t.profile, str(d['seed'])],
                                         capture_output=True, text=True).stdout.split('\n')
                    samples.append({'target': d['target'], 'profile': t.profile, 'seed': d['seed'],
                                    'stats': {k: v for k, v in d.items() if k not in ('_t', 'target', 'seed')},
                                    'case': txt[:14] + (['... %d more lines' % (len(txt) - 14)] if len(txt) > 14 else [])})
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
          'coverage': {'evaluations': evals + run.regress, 'distinct_nontrivial': distinct,
                       'rule': p['rule'], 'samples': samples, 'per_target': per,
                       'regression_replays': run.regress,
                       'totals': agg, 'inconclusive': run.inconclusive,
                       'unconfirmed': [{'target': u[0].label, 'seed': u[1], 'ret': u[4], 'msg': norm(u[3])}
                                       for u in run.unconfirmed],
                       'notes': run.notes[:20]},
          'assumptions': p.get('assumptions', []) + props.ASSUMPTIONS,
          'wall_s': round(time.time() - T0, 2), 'violations': 1 if code else 0}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    say('%s: %d cases (%d non-trivial), %d regression replays, %d inconclusive, %.0f s' %
        (pid, evals, distinct, run.regress, run.inconclusive, time.time() - T0))

def check(pid):
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith('cand-%s-' % pid): os.unlink(os.path.join(EVID, f))
    p = props.PROPS[pid]
    ts = targets_of(p)
    for t, (b, e) in zip(ts, B.build_many([t.thunk for t in ts])):
        t.bin, t.err = b, e
    run = Run(pid, p)
    for t in ts:
        if not t.bin:
            run.notes.append('%s does not build against this tree: %s' % (t.label, t.err[-400:]))
            say('note: %s does not build: %s' % (t.label, t.err[-600:]))
    live = [t for t in ts if t.bin]
    if not live:
        say('%s: nothing could be built; inconclusive' % pid)
        finish(run, pid, p, 0)
        return 0
    # known findings
    for k in load_findings():
        if k.get('property') != pid or k.get('status') != 'known': continue
        bad = 0
        for t in ts:
            if t.bin and t.label in k.get('targets', []):
                for r in replay_many(t.bin, os.path.join(VERIF, k['case']), 60, k.get('tries', 1)):
                    bad += r[0] != 0
        for t in k.get('extra_builds', []): pass
        if bad or not k.get('targets'):
            say('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    run.run_corpus(live)
    if not run.violation:
        secs = p.get('quick_s', 55) if TIER == 'quick' else p.get('thorough_s', 780)
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        deadline = time.time() + secs * scale
        base = (SEED % 100000) * 10000000
        def gen():
            # weighted round robin over targets
            while True:
                for i, t in enumerate(live):
                    for _ in range(t.weight):
                        s = base + i * 200000 + t.next
                        t.next += t.chunk
                        yield t, s, t.chunk
        lock = threading.Lock()
        g = gen()
        class It:
            def __next__(self):
                with lock: return next(g)
        it = It()
        nw = p.get('workers', NPROC)
        ths = [threading.Thread(target=run.worker, args=(it, deadline), daemon=True) for _ in range(nw)]
        for th in ths: th.start()
        for th in ths: th.join(max(1, left()))
    if run.violation:
        t, seed, path, msg, ret, nb, nr = run.violation
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rep = os.path.join(rdir, '%s-%s-%s.case' % (pid, t.label, seed if seed is not None else os.path.basename(path)[:-5]))
        with open(path) as f: text = f.read()
        head = ('# for: %s\n# property %s, profile %s, seed %s\n# %s\n# replay with: check.py --replay THIS_FILE\n' %
                (re.escape(t.label), pid, t.profile, seed, norm(msg)))
        body = ''.join(l for l in text.splitlines(True) if not l.startswith('#'))
        with open(rep, 'w') as f: f.write(head + body)
        if ret == 1 and nb and left() > 120:
            tries = 1 if nb == nr or nb >= 8 else 3
            try:
                small = rep + '.small'
                n, runs = shrink(t.bin, rep, small, timeout=20, tries=tries, budget=min(60, left() - 60))
                os.replace(small, rep)
                say('  shrunk to %d operations in %d runs' % (n, runs))
            except Exception as e:
                say('  shrinking failed: %r' % e)
        say('  ' + msg.strip()[-600:].replace('\n', '\n  '))
        finish(run, pid, p, 1)
        say('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    for u in run.unconfirmed:
        say('unconfirmed (not reported): %s seed=%s %s' % (u[0].label, u[1], norm(u[3])))
    finish(run, pid, p, 0)
    return 0

def replay(path, n):
    with open(path) as f: first = f.readline().split()
    want = first[2:]
    done = set()
    rc = 0
    for pid, p in props.PROPS.items():
        for t in targets_of(p):
            if t.label in done or not any(re.fullmatch(w, t.label) for w in want): continue
            done.add(t.label)
            b, e = t.thunk()
            if not b: say(e); continue
            for r in replay_many(b, path, 60, n):
                say(t.label, r[0], r[1].strip())
                rc |= r[0] == 1
    return rc

def setup():
    thunks, labels, seen = [], [], set()
    for pid, p in props.PROPS.items():
        for t in targets_of(p):
            if t.label in seen: continue
            seen.add(t.label); labels.append(t.label); thunks.append(t.thunk)
    bad = [(l, e) for l, (b, e) in zip(labels, B.build_many(thunks)) if not b]
    for l, e in bad: say(l, e[-800:])
    say('built %d binaries, %d failed' % (len(thunks), len(bad)))
    return 1 if bad else 0

if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1))
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        sys.exit(setup())
    if '--thorough' in sys.argv[2:]:
        TIER = 'thorough'
    sys.exit(check(sys.argv[1]))
