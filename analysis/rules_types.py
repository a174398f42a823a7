"""C21 (and parts of C19, C26): programs that must not compile, each with a twin that must."""
import glob, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from report import ROOT

TARGET = os.environ.get('WIT_TARGET') or os.path.join(ROOT, 'build', 'target')


def metas():
    out = {}
    for p in glob.glob(os.path.join(TARGET, '**', '*.rmeta'), recursive=True):
        out.setdefault(os.path.basename(p)[3:].split('-')[0], []).append(p)
    return out


def compile_(src, tmp, ms):
    name = os.path.basename(src)
    dirs = sorted({os.path.dirname(p) for ps in ms.values() for p in ps} | {os.path.dirname(p) for p in glob.glob(os.path.join(TARGET, '**', '*.so'), recursive=True)})
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json',
           '-o', os.path.join(tmp, name + '.rmeta')]
    for d in dirs:
        cmd += ['-L', 'dependency=' + d]
    for c in ('async_zip', 'futures_lite'):
        cmd += ['--extern', '%s=%s' % (c, max(ms[c], key=os.path.getmtime))]
    r = subprocess.run(cmd + [src], capture_output=True, text=True)
    errs = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error':
                sp = [s['line_start'] for s in m.get('spans', []) if s.get('is_primary')]
                errs.append(((m.get('code') or {}).get('code') or '', sp[0] if sp else 0, m['message'][:120]))
    return r.returncode, errs


def run_witness(R, pid):
    ms = metas()
    if 'async_zip' not in ms or 'futures_lite' not in ms:
        R.ob(pid, 'witness-compiler', None, '', 'metadata of the crate not found')
        return
    tmp = tempfile.mkdtemp(prefix='wit', dir=os.path.join(ROOT, 'build'))
    jobs = []
    for p in sorted(glob.glob(os.path.join(ROOT, 'witness', '*.rs'))):
        lines = open(p).read().split('\n')
        if pid not in lines[0].split():
            continue
        name = os.path.basename(p)[:-3]
        title = lines[1].lstrip('/ ')
        for kind in ('twin', 'bad'):
            drop, keep = ('//~BAD', '//~GOOD') if kind == 'twin' else ('//~GOOD', '//~BAD')
            if kind == 'bad' and title.startswith('MUST'):
                continue
            f = os.path.join(tmp, '%s_%s.rs' % (name, kind))
            # dropped lines stay as blank lines so that line numbers agree
            open(f, 'w').write('\n'.join('' if l.rstrip().endswith(drop) else l for l in lines))
            marked = [k + 1 for k, l in enumerate(lines) if '//~' in l]
            jobs.append((name, title, kind, f, marked))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(j[3], tmp, ms), jobs))
    shutil.rmtree(tmp)
    by = {}
    for j, r in zip(jobs, res):
        by.setdefault(j[0], {})[j[2]] = (j, r)
    for name, d in by.items():
        j, (rc, errs) = d['twin']
        where = 'witness/%s.rs' % name
        R.count('programs_compiled', len(d))
        if j[1].startswith('MUST'):
            # only a missing capability counts, not a renamed item
            cap = [x for x in errs if x[0] in ('E0277', 'E0499', 'E0502', 'E0505', 'E0506', 'E0382', 'E0596', 'E0597', 'E0521', 'E0373') or 'cannot be sent' in x[2] or 'cannot be shared' in x[2]]
            R.ob(pid, 'must-compile', True if rc == 0 else False if cap else None, where, '%s: rejected: %s' % (j[1][5:], errs[:2]))
            continue
        if rc != 0:
            R.ob(pid, 'misuse-rejected', None, where, 'the correct twin does not compile: %s' % errs[:2])
            continue
        rc2, errs2 = d['bad'][1]
        R.ob(pid, 'misuse-rejected', rc2 != 0, where, 'a program that %s compiles' % j[1])


# ------------------------------------------------------------------ inventory of the crate's own bodies
def callees(e, only=None):
    """(function, callee path, span) of every function mentioned in a body of the crate (called or passed as a value)"""
    def walk(x):
        if isinstance(x, dict):
            f = x.get('fn')
            if isinstance(f, dict) and 'path' in f:
                yield f
            for v in x.values():
                for z in walk(v):
                    yield z
        elif isinstance(x, (list, tuple)):
            for v in x:
                for z in walk(v):
                    yield z
    for i in e.I:
        if not (i['local'] and i['blocks'] and (only is None or i is only)):
            continue
        for b in i['blocks']:
            if b is None:
                continue
            for part in list(b.get('s') or ()) + [b.get('t')]:
                for f in walk(part):
                    yield i, f, b.get('sp')


BLOCK_PREFIX = ('std::fs::', 'std::thread::', 'std::net::', 'std::process::', 'std::os::unix::net', 'std::sync::mpsc', 'std::sync::mpmc',
                'std::sync::Condvar', 'std::sync::Barrier', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::LazyLock',
                'std::sync::Once', 'std::sync::poison', 'parking_lot::', 'crossbeam', 'std::io::stdin', 'std::io::Stdin', 'std::hint::spin_loop',
                'tokio::runtime::', 'tokio::task::block_in_place', 'tokio::task::spawn_blocking', 'tokio_util::io::SyncIoBridge', 'futures_lite::future::block_on',
                'futures_lite::io::AllowStdIo', 'futures_lite::io::BlockOn', 'futures_lite::io::split', 'blocking::', 'async_std::task::block_on',
                'std::hint::spin', 'core::hint::spin_loop', 'libc::', 'nix::', 'rustix::')
BLOCK_LAST = ('block_on', 'block_in_place', 'blocking_lock', 'blocking_read', 'blocking_write', 'blocking_recv', 'blocking_send', 'spawn_blocking', 'sleep_ms', 'park', 'park_timeout')
PATH_IO = ('exists', 'try_exists', 'metadata', 'symlink_metadata', 'canonicalize', 'read_dir', 'read_link', 'is_file', 'is_dir', 'is_symlink')
BLOCK_SELF = ('std::fs::File', 'std::io::Stdin', 'std::net::TcpStream', 'std::net::UdpSocket', 'std::os::fd::OwnedFd', 'std::sync::mpsc', 'std::sync::Mutex', 'std::sync::RwLock')
# constructors and accessors that only wrap or convert are harmless on their own
HARMLESS_LAST = ('drop', 'fmt', 'eq', 'ne', 'hash', 'default', 'panicking')


def blocking(f, T):
    """why this callee may block, or None"""
    from models import norm
    p = (f.get('rpath') or f['path'])
    q = p.lstrip('<&')
    n = norm(p)
    last = n.split('::')[-1]
    if f.get('local') or f.get('rlocal'):
        return None
    if last in BLOCK_LAST:
        return 'blocks the calling thread'
    for x in (n, q, f['path']):
        for b in BLOCK_PREFIX:
            if x.startswith(b):
                if last in HARMLESS_LAST or last == 'panicking':
                    continue
                if b in ('std::fs::', 'std::process::', 'std::net::') and last in ('clone',) or x.startswith('std::process::abort'):
                    continue
                return 'blocking operation of %s' % b.rstrip(':')
    if last in PATH_IO and ('std::path::Path' in p or n.startswith('std::path')):
        return 'blocking file-system query'
    # blocking traits on a blocking object
    if f.get('trait') in ('std::io::Read', 'std::io::Write', 'std::io::Seek', 'std::io::BufRead') or any(x.startswith(('std::io::Read::', 'std::io::Write::', 'std::io::Seek::', 'std::io::BufRead::', 'std::io::copy', 'std::io::read_to_string')) for x in (n, q, f['path'])):
        for a in (f.get('rargs') or []) + (f.get('args') or []):
            s = T(a)['s'] if isinstance(a, int) else ''
            if any(b in s for b in BLOCK_SELF):
                return 'blocking read or write of %s' % s
    return None


def run_blocking(R):
    from scen import Sc, nname
    s = Sc()
    e = s.e
    seen = set()
    n = 0
    fns = set()
    for i, f, sp in callees(e):
        p = f.get('rpath') or f['path']
        fns.add(i['id'])
        key = (i['id'], p)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        why = blocking(f, e.T)
        R.ob('C30', 'no-blocking-call', why is None, '%s %s' % (nname(i), sp), '%s calls %s: %s' % (nname(i), p, why))
    R.count('functions_scanned', len(fns))
    R.count('callees_scanned', n)
    # the futures of the crate only wait on other futures: every await is a poll of a callee, never a loop that polls in place
    for i in e.I:
        if not (i['local'] and i['blocks'] and i.get('root')):
            continue
        polls_in_place(R, e, i)
    R.analysed(e)


def polls_in_place(R, e, i):
    """a poll of a future that came back pending must leave the function (yield or return), not be repeated"""
    from scen import nname
    bl = i['blocks']

    def succ(t):
        if not t:
            return []
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if len(t) > 4 and isinstance(t[4], int) else []
        if k in ('drop',):
            return [t[2]]
        if k == 'assert':
            return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-1:]
        if k == 'yield':
            return []
        return []
    for b, blk in enumerate(bl):
        if blk is None or not blk['t'] or blk['t'][0] != 'call':
            continue
        f = blk['t'][1]
        if f[0] != 'c' or 'fn' not in f[1]:
            continue
        p = f[1]['fn'].get('rpath') or f[1]['fn']['path']
        if not p.endswith('::poll') or 'Future' not in p:
            continue
        # find the switch on the result: pending edge = discriminant 1 of Poll
        dest = blk['t'][3]
        seen, work = set(), []
        nxt = blk['t'][4] if isinstance(blk['t'][4], int) else None
        # walk to the first switch
        cur, hops, pend = nxt, 0, None
        while cur is not None and hops < 6 and bl[cur] is not None:
            t = bl[cur]['t']
            if t[0] == 'switch':
                pend = [x[1] for x in t[2] if x[0] == 1] or [t[3]]
                break
            ss = succ(t)
            cur = ss[0] if len(ss) == 1 else None
            hops += 1
        if not pend:
            continue
        work = list(pend)
        back = False
        while work:
            c = work.pop()
            if c in seen or bl[c] is None:
                continue
            seen.add(c)
            if c == b:
                back = True
                break
            work += succ(bl[c]['t'])
        R.ob('C30', 'pending-leaves-the-function', not back, '%s %s' % (nname(i), blk.get('sp')), '%s polls again after pending without yielding' % nname(i))


# ------------------------------------------------------------------ shared state
INTERIOR = ('std::cell::', 'core::cell::', 'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::LazyLock', 'std::sync::Condvar', 'std::sync::poison',
            'std::sync::atomic::', 'core::sync::atomic::', 'tokio::sync::', 'parking_lot', 'futures_util::lock', 'futures::lock', 'async_lock', 'std::sync::Once', 'std::sync::mpsc')
CONTAINERS = ('std::vec::Vec', 'std::boxed::Box', 'std::option::Option', 'std::result::Result', 'std::collections::', 'std::pin::Pin', 'std::borrow::Cow', 'std::mem::ManuallyDrop')
SHARED = ('std::sync::Arc', 'std::rc::Rc')


def reach(e, ty, shared, path, seen, out):
    key = (ty, shared)
    if key in seen or len(path) > 14:
        return
    seen.add(key)
    t = e.T(ty)
    k = t['k']
    if k in ('ref', 'ptr'):
        if t.get('ty') is not None:
            reach(e, t['ty'], shared or not t.get('mut'), path + ['&'], seen, out)
        return
    if k in ('slice', 'array'):
        z = t.get('ty', t.get('el'))
        if z is not None:
            reach(e, z, shared, path, seen, out)
        return
    if k == 'tuple':
        for z in t.get('tys') or ():
            z = z['t'] if isinstance(z, dict) else z
            reach(e, z, shared, path, seen, out)
        return
    if k != 'adt':
        return
    n = t['name']
    if any(n.startswith(x) for x in INTERIOR):
        out.append((shared, n, path))
        return
    if n.startswith(SHARED):
        for a in t.get('args', ())[:1]:
            reach(e, a, True, path + [n.split('::')[-1]], seen, out)
        return
    if t.get('local'):
        for v in t['variants']:
            for f in v['f']:
                reach(e, f['t'], shared, path + ['%s.%s' % (n.split('::')[-1], f['n'])], seen, out)
        return
    for a in t.get('args', ()):
        if isinstance(a, int):
            reach(e, a, shared, path + [n.split('::')[-1]], seen, out)


def run_shared(R):
    from scen import Sc, nname
    s = Sc()
    e = s.e
    n = 0
    for kind in ('base::read::mem::ZipFileReader', 'tokio::read::fs::ZipFileReader'):
        f = s.find(kind + '::reader_with_entry')
        t = e.T(f['locals'][1])
        # a shared reference is enough
        R.ob('C26', 'shared-access', t['k'] == 'ref' and not t.get('mut'), nname(f), '%s takes %s' % (nname(f), t['s']))
        rt = t['ty'] if t['k'] == 'ref' else f['locals'][1]
        out = []
        reach(e, rt, True, [], set(), out)
        for sh, name, path in out or [(None, None, None)]:
            R.ob('C26', 'no-interior-mutability', name is None, kind, '%s reaches %s through %s' % (kind, name, path))
        # the file-system reader keeps a path, no open handle that its entry readers could share
        hand = []
        held(e, rt, [], set(), hand)
        for name, path in hand or [(None, None)]:
            R.ob('C26', 'no-shared-handle', name is None, kind, '%s holds an open handle %s at %s' % (kind, name, path))
        for op in ('reader_with_entry', 'reader_without_entry'):
            f = s.find(kind + '::' + op)
            ct = e.T(f['locals'][0])
            if ct['k'] != 'coroutine' or ct.get('inst') is None:
                R.ob('C26', 'entry-reader-type', None, nname(f), '')
                continue
            n += 1
            okt = e.I[ct['inst']]['locals'][0]
            out = []
            reach(e, okt, False, [], set(), out)
            bad = [x for x in out if x[0]]
            for sh, name, path in bad or [(None, None, None)]:
                R.ob('C26', 'no-shared-state-in-entry-readers', name is None, nname(f), 'entry readers of %s share %s through %s' % (kind, name, path))
    st = e.d.get('statics') if hasattr(e, 'd') else None
    st = st if st is not None else _statics()
    R.count('statics', len(st))
    R.count('entry_reader_types', n)
    R.ob('C26', 'statics-inventory', True, '', '%d statics in the crate' % len(st))
    for x in st:
        R.ob('C26', 'no-global-state', x['freeze'] and not x['mut'], x['name'], 'global state %s: %s' % (x['name'], x['ty']))
    for i, f, sp in callees(e):
        p = f.get('rpath') or f['path']
        if p.startswith('std::thread::LocalKey') or p.startswith('std::thread::local'):
            R.ob('C26', 'no-global-state', False, '%s %s' % (nname(i), sp), '%s uses thread-local state' % nname(i))
        if p.endswith('::try_clone') and 'File' in p:
            R.ob('C26', 'no-shared-handle', False, '%s %s' % (nname(i), sp), '%s duplicates a file handle, which shares its position' % nname(i))
    R.analysed(e)


def _statics():
    import scen
    return scen.load().get('statics', [])


HANDLES = ('tokio::fs::File', 'std::fs::File', 'tokio::net::', 'std::net::', 'tokio::io::BufReader', 'std::os::fd::')


def held(e, ty, path, seen, out):
    if ty in seen or len(path) > 14:
        return
    seen.add(ty)
    t = e.T(ty)
    if t['k'] in ('ref', 'ptr', 'slice', 'array'):
        z = t.get('ty', t.get('el'))
        if z is not None:
            held(e, z, path, seen, out)
        return
    if t['k'] != 'adt':
        return
    if any(t['name'].startswith(h) for h in HANDLES):
        out.append((t['name'], path))
        return
    if t.get('local'):
        for v in t['variants']:
            for f in v['f']:
                held(e, f['t'], path + ['%s.%s' % (t['name'].split('::')[-1], f['n'])], seen, out)
    else:
        for a in t.get('args', ()):
            if isinstance(a, int):
                held(e, a, path + [t['name'].split('::')[-1]], seen, out)


# ------------------------------------------------------------------ ambient inputs and effects
AMBIENT = (
    ('the clock', ('std::time::SystemTime::now', 'std::time::Instant::now', 'std::time::SystemTime::elapsed', 'std::time::Instant::elapsed', 'tokio::time::', 'chrono::Utc::now', 'chrono::offset::Utc::now',
                   'chrono::Utc::today', 'chrono::offset::Utc::today', 'time::OffsetDateTime::now', 'time::UtcOffset::current')),
    ('the local time zone or clock', ('chrono::Local', 'chrono::offset::Local', 'chrono::offset::local', 'iana_time_zone::')),
    ('the process environment', ('std::env::', 'std::path::absolute', 'std::path::Path::canonicalize', 'std::fs::canonicalize', 'tokio::fs::canonicalize', 'std::process::id', 'std::os::unix::process::parent_id', 'std::thread::available_parallelism', 'num_cpus::')),
    ('randomness', ('rand::', 'rand_core::', 'getrandom::', 'fastrand::', 'futures_lite::prelude::fastrand', 'uuid::', 'std::hash::RandomState', 'std::collections::hash_map::RandomState', 'std::random')),
    ('the identity of the running thread', ('std::thread::current', 'tokio::task::id', 'tokio::task::try_id')),
    ('the standard streams', ('std::io::_print', 'std::io::_eprint', 'std::io::stdout', 'std::io::stderr', 'std::io::stdin', 'tokio::io::stdout', 'tokio::io::stderr', 'tokio::io::stdin', 'std::macros::dbg')),
    ('the file system beyond reading the given path', tuple('%s::%s' % (m, f) for m in ('std::fs', 'tokio::fs') for f in (
        'write', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'create_dir', 'create_dir_all', 'copy', 'hard_link', 'set_permissions', 'symlink', 'File::create', 'File::create_new',
        'File::set_len', 'File::set_permissions', 'OpenOptions::write', 'OpenOptions::append', 'OpenOptions::truncate', 'OpenOptions::create', 'OpenOptions::create_new'))),
)
HASHED = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map::', 'std::collections::hash_set::', 'hashbrown::')
HASH_ORDER = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'retain', 'next')


def ambient(f):
    """(what the callee consults, certain)"""
    from models import norm
    p = f.get('rpath') or f['path']
    for x in {norm(p), p.lstrip('<&'), f['path']}:
        for what, pre in AMBIENT:
            for b in pre:
                if x == b or (x.startswith(b) and (b.endswith('::') or x[len(b):len(b) + 2] == '::' or x[len(b):len(b) + 1] in ('<', ' '))):
                    return what, True
        if x.startswith(HASHED) and x.split('::')[-1] in HASH_ORDER:
            return 'the iteration order of a randomly keyed table', None
    return None


# consumers whose result does not depend on the order of what they are given
ORDER_FREE = ('any', 'all', 'count', 'sum', 'product', 'max', 'min', 'max_by_key', 'min_by_key', 'len', 'fold', 'reduce', 'find', 'retain', 'contains', 'contains_key')


def order_free(e, i):
    """whether a body may put what it takes from a table in order, or use it in a way that needs none"""
    for _, f, _ in callees(e, i):
        last = (f.get('rpath') or f['path']).split('::')[-1].split('<')[0]
        if last.startswith('sort') or last in ORDER_FREE:
            return True
        if any('BTree' in e.T(a)['s'] or 'BinaryHeap' in e.T(a)['s'] for a in (f.get('rargs') or f.get('args') or ()) if isinstance(a, int)):
            return True
    return False


def run_ambient(R):
    from scen import Sc, nname
    s = Sc()
    e = s.e
    seen, fns, n = set(), set(), 0
    for i, f, sp in callees(e):
        fns.add(i['id'])
        p = f.get('rpath') or f['path']
        if (i['id'], p) in seen:
            continue
        seen.add((i['id'], p))
        n += 1
        a = None if f.get('local') or f.get('rlocal') else ambient(f)
        if a is not None and a[1] is None:
            keyed = any('RandomState' in e.T(x)['s'] for x in (f.get('rargs') or f.get('args') or ()) if isinstance(x, int))
            a = (a[0], keyed and not order_free(e, i))
        if a is None:
            R.ob('C34', 'no-ambient-input', True, nname(i), '')
        else:
            R.ob('C34', 'no-ambient-input', False if a[1] else None, '%s %s' % (nname(i), sp), '%s calls %s, which consults or changes %s' % (nname(i), p, a[0]))
    # state that survives a call: statics that can change and are changed by the crate's own code
    st = _statics()
    for x in st:
        changing = not x['freeze'] or x['mut']
        # a lazily initialised constant is set once, to a value that is itself subject to this rule
        once = any(k in x['ty'] for k in ('OnceLock', 'LazyLock', 'OnceCell', 'OnceBox', 'Lazy<'))
        R.ob('C34', 'no-mutable-global-state', None if changing and once else not changing, x['name'], 'global state %s: %s survives from one call to the next' % (x['name'], x['ty']))
    if not st:
        R.ob('C34', 'no-mutable-global-state', True, 'async_zip', 'the crate declares no statics')
    # no value of the crate's own types is created from an address
    for i in e.I:
        if not (i['local'] and i['blocks']):
            continue
        for b in i['blocks']:
            for q in (b or {}).get('s') or ():
                if q[0] == '=' and isinstance(q[2], list) and q[2] and q[2][0] == 'cast' and 'xposeP' in str(q[2][1]):
                    R.ob('C34', 'no-address-dependence', False, '%s %s' % (nname(i), q[3] if len(q) > 3 else ''), '%s turns an address into a number' % nname(i))
    R.ob('C34', 'no-address-dependence', True, 'async_zip', 'casts of all bodies scanned')
    R.count('functions_scanned', len(fns))
    R.count('callees_scanned', n)
    R.count('statics', len(st))
    R.analysed(e)


# ------------------------------------------------------------------ unsafe code
# unsafe operations whose obligation the abstract interpretation checks where they are called (rule no-undefined-behaviour / text rules)
CHECKED_UNSAFE = ('from_utf8_unchecked', 'from_utf8_unchecked_mut', 'get_unchecked', 'get_unchecked_mut', 'set_len', 'unreachable_unchecked')


def run_unsafe(R):
    """inventory of unsafe operations in the crate's own bodies"""
    from scen import Sc, nname
    s = Sc()
    e = s.e
    n = 0
    seen = set()
    for i, f, sp in callees(e):
        if not f.get('unsafe'):
            continue
        p = f.get('rpath') or f['path']
        key = (i['id'], p, sp)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        last = p.split('::')[-1].split('<')[0]
        where = '%s %s' % (nname(i), sp)
        if i.get('exp') or p.startswith(('core::fmt', 'std::fmt')) or 'fmt::Arguments' in p:
            R.ob('C37', 'unsafe-operation-accounted-for', True, where, 'generated by a derive or formatting macro')
        elif last in ('new_unchecked', 'get_context') and ('Pin' in p or 'future' in p):
            R.ob('C37', 'unsafe-operation-accounted-for', True if e.I[i['id']].get('dk') not in ('Fn', 'AssocFn') or i.get('async') else None, where, 'desugared await')
        elif last in CHECKED_UNSAFE:
            R.ob('C37', 'unsafe-operation-accounted-for', True, where, '%s: its precondition is an obligation wherever it is reached' % last)
        else:
            R.ob('C37', 'unsafe-operation-accounted-for', None, where, '%s calls unsafe %s' % (nname(i), p))
    R.count('unsafe_operations', n)
    # dereferences of raw pointers, reads of unions and mutable statics in hand-written code
    for i in e.I:
        if not (i['local'] and i['blocks']) or i.get('exp'):
            continue
        for b in i['blocks']:
            for q in (b or {}).get('s') or ():
                if q[0] == '=' and isinstance(q[2], list) and q[2] and q[2][0] == 'cast' and str(q[2][1]).startswith('Transmute'):
                    R.ob('C37', 'unsafe-operation-accounted-for', None, '%s %s' % (nname(i), q[3] if len(q) > 3 else ''), 'transmute in %s' % nname(i))
    R.analysed(e)
