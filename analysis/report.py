"""Obligation bookkeeping, evidence and the exit protocol."""
import json, os, time, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.rules = {}        # rule -> [discharged, undecided, violated]
        self.viol = {}         # key -> dict
        self.und = {}          # key -> count
        self.samples = {}
        self.cov = {}
        self.fns = set()
        self.assumptions = []

    def ob(self, rule, ok, where='', msg='', key=None):
        """one obligation: ok True / False / None (not decided)"""
        r = self.rules.setdefault(rule, [0, 0, 0])
        if ok is True:
            r[0] += 1
            if rule not in self.samples and where:
                self.samples[rule] = '%s @ %s' % (msg or rule, where)
        elif ok is None:
            r[1] += 1
            k = '%s @ %s: %s' % (rule, where, msg)
            if len(self.und) < 60 or k in self.und:
                self.und[k] = self.und.get(k, 0) + 1
        else:
            r[2] += 1
            k = key or (rule, where, msg)
            if len(self.viol) > 2000:
                k = (rule, where)
            if k not in self.viol:
                self.viol[k] = dict(rule=rule, where=where, msg=msg, n=0)
            self.viol[k]['n'] += 1
        return ok

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def analysed(self, engine):
        for i in engine.visited:
            self.fns.add(engine.I[i]['name'])
        self.cov['abstract_steps'] = self.cov.get('abstract_steps', 0) + engine.steps

    def finish(self, explanation, known=()):
        dis = sum(r[0] for r in self.rules.values())
        und = sum(r[1] for r in self.rules.values())
        bad = sum(r[2] for r in self.rules.values())
        viol = list(self.viol.values())
        new, old = [], []
        for v in viol:
            kf = next((k for k in known if k.get('rule') == v['rule'] and k.get('where', '') in v['where'] and k.get('msg', '') in v['msg']), None)
            if kf is None:
                new.append(v)
            elif kf not in old:
                old.append(kf)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        rdir = os.path.join(ROOT, 'build', 'replay')
        cov = dict(explanation=explanation, obligations=dis + und + bad, discharged=dis,
                   undecided=und, rules={k: dict(discharged=v[0], undecided=v[1], violated=v[2]) for k, v in sorted(self.rules.items())},
                   functions_analysed=len(self.fns), functions=sorted(self.fns)[:400],
                   samples=['%s: %s' % kv for kv in list(self.samples.items())[:25]],
                   undecided_samples=['%s (x%d)' % kv for kv in list(self.und.items())[:25]])
        cov.update(self.cov)
        cov['known_findings'] = [k['what'] for k in old]
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED') or 1), level='other',
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(new))
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions; %.1fs' % (
            self.pid, dis + und + bad, dis, und, bad, len(self.fns), time.time() - self.t0))
        for kf in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what']))
        if not new:
            return 0
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, self.pid + '.txt')
        with open(p, 'w') as f:
            for v in new:
                f.write('property %s, rule %s\n  at %s\n  %s\n  (%d abstract paths)\n\n' % (self.pid, v['rule'], v['where'], v['msg'], v['n']))
        for v in new[:8]:
            print('  rule %s violated at %s: %s' % (v['rule'], v['where'], v['msg'][:400]))
        print('VIOLATION property=%s replay=%s' % (self.pid, p))
        return 1
