"""check.py <property> [quick|thorough]: run the rules of one property over the current MIR dump."""
import importlib, json, os, signal, sys, time, traceback
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from report import Report, ROOT
import registry

START = time.time()
DEADLINE = {'quick': 540, 'thorough': 5400}      # an analysis that does not finish is undecided, not an alarm


def job(a):
    pid, tier, mod, fn, args = a
    import scen
    from rulelib import Multi
    from engine import Budget
    rep = Report(pid, tier)
    R = Multi(rep)
    left = DEADLINE[tier] - (time.time() - START)

    def stop(*_):
        raise Budget('time')
    signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, max(min(left, DEADLINE[tier] / 2), 0.01), 1)
    try:
        getattr(importlib.import_module(mod), fn)(R, *args)
    except scen.Missing as x:
        rep.ob('public-anchor-present', False, str(x), 'the public operation %s no longer exists' % x)
    except Budget as x:
        rep.ob('analysis-complete', None, '%s%s' % (fn, args), 'budget exhausted: %s' % x)
    except Exception as x:
        tb = traceback.extract_tb(sys.exc_info()[2])
        rep.ob('analysis-complete', None, '%s%s' % (fn, args), 'analysis stopped: %r at %s' % (x, [(os.path.basename(f.filename), f.lineno) for f in tb[-4:]]))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rep


def merge(into, r):
    for k, v in r.rules.items():
        t = into.rules.setdefault(k, [0, 0, 0])
        for i in range(3):
            t[i] += v[i]
    for k, v in r.viol.items():
        if k in into.viol:
            into.viol[k]['n'] += v['n']
        else:
            into.viol[k] = v
    for k, n in r.und.items():
        if len(into.und) < 200 or k in into.und:
            into.und[k] = into.und.get(k, 0) + n
    for k, v in r.samples.items():
        into.samples.setdefault(k, v)
    for k, v in r.cov.items():
        into.cov[k] = into.cov.get(k, 0) + v
    into.fns |= r.fns
    for x in r.assumptions:
        if x not in into.assumptions:
            into.assumptions.append(x)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    spec = registry.PROPS[pid]
    jobs = [(pid, tier, *j) for j in spec['jobs'](tier)]
    rep = Report(pid, tier)
    import scen
    scen.load()
    if spec.get('prepare'):
        spec['prepare'](tier)
    if len(jobs) == 1:
        res = [job(jobs[0])]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs))) as pool:
            res = pool.map(job, jobs, chunksize=1)
    for r in res:
        merge(rep, r)
    rep.cov['analysis_jobs'] = len(jobs)
    rep.assumptions = spec.get('assumptions', []) + [a for a in rep.assumptions if a not in spec.get('assumptions', [])]
    known = []
    kf = os.path.join(ROOT, 'known-findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == pid and k['status'] == 'known']
    sys.exit(rep.finish(spec['explain'], known))


if __name__ == '__main__':
    main()
