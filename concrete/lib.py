"""Runner of the concrete stage: executes the real code of /repo on generated inputs, compares against independent
oracles, and replays single inputs."""
import re, os, sys, json, time, signal, random, resource, traceback, warnings, hashlib
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
REPO = os.environ.get('FORONOI_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


GAPS = []


class Timeout(Exception):
    pass


class Bad(Exception):
    """the property does not hold on this input"""


def _alarm(*a):
    raise Timeout()


def limit(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def unlimit():
    signal.setitimer(signal.ITIMER_REAL, 0)


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def guarded(fn, data, seconds=30):
    """-> None if the property held, else a message"""
    limit(seconds)
    try:
        fn(data)
        return None
    except Bad as e:
        return str(e)
    except Timeout:
        return f"did not finish within {seconds} s"
    except MemoryError:
        return "ran out of memory (6 GB)"
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, AttributeError) and not tb[-1].filename.startswith(REPO + "/foronoi") and re.search(r"has no attribute '_[a-z]", str(e)):
            GAPS.append(str(e)[:120])      # an internal helper this harness calls has another name now: says nothing about behaviour
            return None
        where = [f"{os.path.relpath(f.filename, REPO)}:{f.lineno}" for f in tb if f.filename.startswith(REPO + "/foronoi")]
        return f"raised {type(e).__name__}: {str(e)[:160]} at {where[-1] if where else 'harness ' + str(tb[-1].lineno)}"
    finally:
        unlimit()


class Case:
    """name, gen(rng, tier) -> json-able data, check(data) (raises Bad), share of the work, nontrivial(data)"""

    def __init__(self, name, gen, check, quick, thorough, rule, seconds=30, nontrivial=None, functions=()):
        self.name, self.gen, self.check, self.quick, self.thorough = name, gen, check, quick, thorough
        self.rule, self.seconds, self.functions = rule, seconds, functions
        self.nontrivial = nontrivial or (lambda d: True)


def worker(args):
    prop, names, seed, idx, n_workers, tier, budget = args
    import cases
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = []
    t0 = time.time()
    todo = [c for c in cases.CASES[prop] if not names or c.name in names]
    for c in todo:
        total = c.quick if tier == 'quick' else c.thorough
        n = total // n_workers + (1 if idx < total % n_workers else 0)
        rng = random.Random(f"{seed}/{prop}/{c.name}/{idx}")
        rec = dict(case=c.name, evaluations=0, keys=[], violations=[], samples=[], cut=False)
        for k in range(n):
            if time.time() - t0 > budget:
                rec['cut'] = True
                break
            try:
                limit(60)
                data = c.gen(rng, tier)
                unlimit()
            except Timeout:
                continue
            except (ValueError, IndexError, ZeroDivisionError) as e:
                # a generator that cannot build this input, never a verdict about the code
                tb = traceback.extract_tb(e.__traceback__)
                if any(f.filename.startswith(REPO + "/foronoi") for f in tb):
                    raise
                rec['skipped'] = rec.get('skipped', 0) + 1
                continue
            finally:
                unlimit()
            msg = guarded(c.check, data, c.seconds)
            rec['evaluations'] += 1
            if c.nontrivial(data):
                rec['keys'].append(hashlib.md5(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:12])
            if len(rec['samples']) < 1:
                rec['samples'].append(data)
            if msg is not None:
                rec['violations'].append(dict(case=c.name, what=msg, data=data))
                if len(rec['violations']) >= 3:
                    break
        out.append(rec)
    return out


def run(prop, tier, seed, budget, names=None, jobs=8):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as p:
        res = p.map(worker, [(prop, names, seed, i, jobs, tier, budget) for i in range(jobs)], chunksize=1)
    agg = {}
    for r in res:
        for rec in r:
            a = agg.setdefault(rec['case'], dict(case=rec['case'], evaluations=0, keys=set(), violations=[], samples=[], cut=False))
            a['evaluations'] += rec['evaluations']
            a['keys'] |= set(rec['keys'])
            a['violations'] += rec['violations']
            a['samples'] += rec['samples'][:1] if len(a['samples']) < 1 else []
            a['cut'] |= rec['cut']
    import cases
    for a in agg.values():
        a['distinct_nontrivial'] = len(a.pop('keys'))
        c = [c for c in cases.CASES[prop] if c.name == a['case']][0]
        a['rule'] = c.rule
        a['functions'] = list(c.functions)
        a['violations'].sort(key=lambda v: len(json.dumps(v['data'], default=str)))
    return list(agg.values())


def shrink(case, v, seconds=20):
    """drop sites while the same case still fails (only for inputs with a 'pts' list)"""
    d = v['data']
    if not (isinstance(d, dict) and isinstance(d.get('pts'), list)) or d.get('noshrink'):
        return v
    import geom
    t0 = time.time()
    best = v
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        pts = best['data']['pts']
        for i in range(len(pts)):
            if len(pts) <= 1 or time.time() - t0 > seconds:
                break
            nd = dict(best['data'], pts=pts[:i] + pts[i + 1:])
            if 'poly' in nd and geom.degenerate(nd['poly'], nd['pts']):
                continue
            if 'circle' in nd:
                continue
            msg = guarded(case.check, nd, min(10, case.seconds))
            if msg is not None:
                best = dict(case=v['case'], what=msg, data=nd)
                changed = True
                break
    return best
