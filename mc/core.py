"""Driver: exhaustive enumeration of a check's case space on the real code, on all cores.

A check module has
  META                  the property record (see tools/gen.py)
  cases(tier)           a deterministic generator of picklable/JSON-able cases (the bounded space)
  run(case, ctx)        explores one case completely on the implementation; ctx.fail(...) or an exception = violation
"""
import hashlib, importlib, io, json, multiprocessing as mp, os, resource, signal, sys, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CASE_CPU = int(os.environ.get('VERIF_CASE_CPU', '60'))


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg, self.sig = msg, sig


class CpuLimit(BaseException):
    pass


class Ctx:
    """Counters of one worker.  states / transitions: nodes and edges of the explored transition systems actually
    visited and compared; traces: complete executions of the implementation compared with the reference model."""

    def __init__(self, tier):
        self.tier = tier
        self.n = {}
        self.distinct = set()
        self.samples = []
        self.choices = None
        self.capped = 0
        self.case = None
        self.note = ''
        self.known = {}

    def count(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def state(self, k=1):
        self.count('states', k)

    def trans(self, k=1):
        self.count('transitions', k)

    def trace(self, k=1):
        self.count('traces', k)

    def outcome(self, obj):
        """Record a distinct observed outcome (vacuity guard)."""
        h = hash(obj) if isinstance(obj, int) else hashlib.md5(repr(obj).encode()).digest()[:8]
        if len(self.distinct) < 500000:
            self.distinct.add(h)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def fail(self, msg, sig=None):
        raise Violation(msg, sig)

    def check(self, cond, msg, sig=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, sig)

    def eq(self, got, want, what, sig=None):
        if got != want:
            raise Violation(f'{what() if callable(what) else what}: got {got!r}, expected {want!r}', sig)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get('property') == pid and not e.get('fixed')]


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def load_check(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module(f'checks.{pid}')


def setup_process():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    from . import choices
    choices.install()


def _alarm(*_):
    raise CpuLimit()


def run_one(mod, case, ctx, cpu=None):
    """Returns None or a violation record."""
    ctx.case, ctx.choices, ctx.note = case, None, ''
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or getattr(mod, 'CASE_CPU', CASE_CPU))
    try:
        try:
            mod.run(case, ctx)
            return None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        msg, sig, tb = e.msg, e.sig, ''
    except CpuLimit:
        msg, sig, tb = f'did not terminate within {cpu or getattr(mod, "CASE_CPU", CASE_CPU)} s of CPU time', 'timeout', traceback.format_exc()
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        fr = [f for f in traceback.extract_tb(e.__traceback__) if '/aalpy/' in f.filename]
        where = f'{os.path.basename(fr[-1].filename)}:{fr[-1].name}' if fr else 'harness'
        msg, sig = f'unexpected {type(e).__name__}: {e} (in {where})', f'exc:{type(e).__name__}:{where}'
    return dict(property=mod.META['id'], case=case, msg=str(msg)[:3000], sig=sig, note=ctx.note,
                choices=list(ctx.choices.trace[:2000]) if ctx.choices else None, trace=tb[-3000:])


def _worker(pid, tier, wid, nw, counter, stop, q, chunk, deadline, max_viol):
    setup_process()
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    devnull = open(os.devnull, 'w')
    real_out, real_err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    mod = load_check(pid)
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    ctx = Ctx(tier)
    known = known_findings(pid)
    viol, ncases, done = [], 0, True
    slow = []
    try:
        mine, cur = -1, -1
        for i, case in enumerate(mod.cases(tier)):
            c = i // chunk
            if c != cur:
                cur = c
                if c > mine:
                    with counter.get_lock():
                        mine = counter.value
                        counter.value += 1
                if stop.value:
                    done = False
                    break
                if time.time() > deadline:
                    done = False
                    break
            if c < mine:
                continue
            t0 = time.process_time()
            v = run_one(mod, case, ctx)
            ncases += 1
            dt = time.process_time() - t0
            if len(slow) < 5 or dt > slow[-1][0]:
                slow.append((dt, repr(case)[:300]))
                slow.sort(key=lambda t: -t[0])
                del slow[5:]
            if v:
                k = match_known(known, v)
                if k is not None:
                    ctx.known.setdefault(k, v['msg'][:300])
                else:
                    v['index'] = i
                    viol.append(v)
                    if len(viol) >= max_viol:
                        stop.value = 1
                        done = False
                        break
        res = dict(ok=True)
    except BaseException:
        res = dict(ok=False, err=traceback.format_exc())
    q.put(dict(res, n=ctx.n, distinct=ctx.distinct, samples=ctx.samples, viol=viol, ncases=ncases, done=done,
               capped=ctx.capped, known=ctx.known, slow=slow))


def match_known(known, v):
    for k, e in enumerate(known):
        if e.get('sig') is not None and e['sig'] != v['sig']:
            continue
        if e.get('case') is not None and json.dumps(e['case']) != json.dumps(jsonable(v['case'])):
            continue
        if e.get('case_prefix') is not None and not json.dumps(jsonable(v['case'])).startswith(e['case_prefix']):
            continue
        if e.get('msg_contains') and e['msg_contains'] not in v['msg']:
            continue
        return k
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--max-viol', type=int, default=3)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--slow', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.replay:
        return replay(a)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    budget = a.budget or (400 if tier == 'quick' else 780)
    setup_process()
    mod = load_check(a.pid)
    level = mod.META.get('level', 'model_checking')
    counter, stop, q = mp.Value('i', 0), mp.Value('i', 0), mp.Queue()
    chunk = getattr(mod, 'CHUNK', 8)
    ps = [mp.Process(target=_worker, args=(a.pid, tier, w, a.workers, counter, stop, q, chunk, t0 + budget, a.max_viol))
          for w in range(a.workers)]
    for p in ps:
        p.start()
    res, alive_deadline = [], t0 + budget + 120
    while len(res) < len(ps):
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if time.time() > alive_deadline:
                break
            dead = [p for p in ps if p.exitcode not in (None, 0)]
            if dead and len(res) + len(dead) >= len(ps):
                break
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    n, distinct, samples, viol, cases, capped, known, errs = {}, set(), [], [], 0, 0, {}, []
    slow = []
    for r in res:
        for k, v in r['n'].items():
            n[k] = n.get(k, 0) + v
        distinct |= r['distinct']
        samples += r['samples']
        viol += r['viol']
        cases += r['ncases']
        capped += r['capped']
        known.update(r['known'])
        slow += r['slow']
        if not r['ok']:
            errs.append(r['err'])
    lost = len(ps) - len(res)
    done = all(r['done'] for r in res) and not lost
    kf = known_findings(a.pid)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={a.pid} {kf[k]['what']}")
    viol.sort(key=lambda v: v['index'])
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    for j, v in enumerate(viol[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{a.pid}-{j}.json')
        v['case'] = jsonable(v['case'])
        json.dump(v, open(path, 'w'), indent=1, default=repr)
        print(f"VIOLATION property={a.pid} replay={path}")
        print(f"  case {json.dumps(v['case'], default=repr)[:600]}\n  {v['msg'][:900]}")
        if v.get('note'):
            print('  note', v['note'][:300])
        if v.get('choices'):
            print('  choices', str(v['choices'])[:200])
    cov = dict(evaluations=cases, distinct_nontrivial=len(distinct),
               rule=mod.META.get('rule', 'every case of the bounded space is executed on the implementation; distinct = distinct observed outcomes'),
               states=n.get('states', 0), transitions=n.get('transitions', 0),
               traces_validated_against_impl=n.get('traces', 0),
               samples=[repr(s)[:600] for s in samples[:5]],
               exhaustive=bool(done and not capped and not viol), executions_capped=capped,
               bounds=mod.META.get('bounds', {}).get(tier, ''))
    cov.update({k: v for k, v in n.items() if k not in ('states', 'transitions', 'traces')})
    ev = dict(property=a.pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(viol), known_findings_seen=len(known), assumptions=mod.META.get('assumptions', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{a.pid}.json'), 'w'), indent=1)
    if a.slow:
        for t in sorted(slow, reverse=True)[:8]:
            print('slow', round(t[0], 2), t[1])
    print(f"{a.pid} {tier}: cases={cases} states={cov['states']} transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} "
          f"outcomes={len(distinct)} exhaustive={cov['exhaustive']} capped={capped} wall={ev['wall_s']}s violations={len(viol)}"
          + ''.join(f' {k}={v}' for k, v in sorted(n.items()) if k not in ('states', 'transitions', 'traces')))
    if viol:
        return 1
    if errs:
        print('HARNESS ERROR\n' + errs[0])
        return 2
    if lost:
        print(f'HARNESS ERROR: {lost} workers lost')
        return 2
    return 0


def replay(a):
    setup_process()
    mod = load_check(a.pid)
    if hasattr(mod, 'setup'):
        mod.setup('quick')
    v = json.load(open(a.replay))
    case = v['case']
    if isinstance(case, str) and not getattr(mod, 'STR_CASES', False):
        case = eval(case, {})
    r = run_one(mod, totuple(case), Ctx('quick'))
    print(json.dumps(r, indent=1, default=repr) if r else 'no violation on replay')
    if r:
        print(r['trace'])
    return 1 if r else 0


def totuple(x):
    return tuple(totuple(y) for y in x) if isinstance(x, (list, tuple)) else x
