"""C36: every selection of features. The library is type-checked under each selection and the rules are run on what that selection compiles."""
import importlib, json, os, subprocess
from report import ROOT
from rulelib import Mapped

CODEC = {'deflate': 8, 'deflate64': 9, 'bzip2': 12, 'lzma': 14, 'zstd': 93, 'xz': 95}
VARIANT = {'deflate': 'Deflate', 'deflate64': 'Deflate64', 'bzip2': 'Bz', 'lzma': 'Lzma', 'zstd': 'Zstd', 'xz': 'Xz'}
# name -> features given to cargo, codecs it contains
CONFIGS = {
    'none': ('', ()),
    'deflate': ('deflate', ('deflate',)), 'deflate64': ('deflate64', ('deflate64',)), 'bzip2': ('bzip2', ('bzip2',)),
    'lzma': ('lzma', ('lzma',)), 'zstd': ('zstd', ('zstd',)), 'xz': ('xz', ('xz',)),
    'chrono': ('chrono', ()), 'tokio': ('tokio', ()), 'tokio-fs': ('tokio-fs', ()),
    'full-wasm': ('full-wasm', ('deflate', 'zstd')), 'full': ('full', tuple(CODEC)),
}
PAIRS = {'%s,%s' % (a, b): ('%s,%s' % (a, b), (a, b)) for i, a in enumerate(CODEC) for b in list(CODEC)[i + 1:]}
PAIRS.update({'all-but-' + c: (','.join(x for x in list(CODEC) + ['chrono', 'tokio-fs'] if x != c), tuple(x for x in CODEC if x != c)) for c in CODEC})


def dump(cfg):
    return os.path.join(ROOT, 'build', 'features', 'mir-%s.json' % cfg)


def prepare(tier):
    """type-check the selections; -> name: None or the compiler's errors"""
    cfgs = dict(CONFIGS)
    if tier == 'thorough':
        cfgs.update(PAIRS)
    os.makedirs(os.path.join(ROOT, 'build', 'features'), exist_ok=True)
    for c, (feats, _) in cfgs.items():
        for p in (dump(c), dump(c) + '.err'):
            if os.path.exists(p):
                os.unlink(p)
        env = dict(os.environ, MIRCFG_FEATURES=feats, MIRCFG_OUT=dump(c), MIRCFG_SELECT='1', MIRCFG_LOG=dump(c) + '.log')
        r = subprocess.run(['bash', os.path.join(ROOT, 'bin', 'extract.sh')], env=env, capture_output=True, text=True)
        if r.returncode != 0:
            open(dump(c) + '.err', 'w').write(open(dump(c) + '.log').read() if os.path.exists(dump(c) + '.log') else r.stdout + r.stderr)


def run_builds(R, *cfgs):
    for c in cfgs:
        feats = dict(CONFIGS, **PAIRS)[c][0]
        if os.path.exists(dump(c)):
            R.ob('C36', 'feature-selection-builds', True, 'features [%s]' % feats, 'type-checks')
            continue
        err = open(dump(c) + '.err').read() if os.path.exists(dump(c) + '.err') else ''
        lines = err.split('\n')
        k = next((n for n, l in enumerate(lines) if l.startswith('error') and 'could not compile' not in l), None)
        own = k is not None and any(l.strip().startswith('--> src/') or '--> /repo/src/' in l for l in lines[k:k + 6])
        R.ob('C36', 'feature-selection-builds', False if own else None, 'features [%s]' % feats,
             'with features [%s] the library does not compile: %s' % (feats, ' '.join(lines[k:k + 3]) if k is not None else 'no dump (%s)' % err[-200:]))


# C01 and C28 carry known findings and do not depend on features; the rest is decided again under every selection
PROPS = ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C22', 'C23', 'C24', 'C25', 'C27')


def run(R, cfg, mod, fn, args):
    import scen, rules_read
    feats, codecs = dict(CONFIGS, **PAIRS)[cfg]
    if not os.path.exists(dump(cfg)):
        return
    old, oldm = scen._CACHE.get('d'), dict(rules_read.METHOD)
    try:
        scen._CACHE['d'] = json.load(open(dump(cfg)))
        for c, n in CODEC.items():
            if c not in codecs:
                rules_read.METHOD.pop(n, None)
        d = scen._CACHE['d']
        t = next((t for t in d['types'] if t.get('k') == 'adt' and t.get('local') and t.get('name') == 'spec::compression::Compression'), None)
        if t is not None:
            have = sorted(v['n'] for v in t['variants'])
            want = sorted(['Stored'] + [VARIANT[c] for c in codecs])
            R.ob('C36', 'methods-of-selection', have == want, 'spec::compression::Compression [features %s]' % feats, 'with features [%s] the compression methods are %s, selected are %s' % (feats, have, want))
        getattr(importlib.import_module(mod), fn)(Mapped(R, 'C36', PROPS, 'with features [%s]' % feats), *args)
    finally:
        rules_read.METHOD.clear()
        rules_read.METHOD.update(oldm)
        if old is None:
            scen._CACHE.pop('d', None)
        else:
            scen._CACHE['d'] = old
