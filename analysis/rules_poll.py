"""C14: every polling adapter of the crate, run on an unknown adapter state, buffer and wrapped object."""
from rules_read import *

FWD = ('write', 'writev', 'encwrite', 'read', 'decread', 'fill', 'flush', 'close', 'consume', 'take-end')
TRAITS = ('AsyncRead', 'AsyncBufRead', 'AsyncWrite')


def adapters(e):
    for i in e.I:
        if i['local'] and i['blocks'] and not i.get('promoted') and i.get('root') and i.get('impl_trait'):
            n = nname(i)
            if ' as ' in n and n.split(' as ')[1].split(':')[0] in TRAITS:
                yield i, n.split(':')[-1]


def diff(e, st, a, b, path=''):
    """[(path, before, after)] of the fields that changed"""
    if a is b:
        return
    if isinstance(b, E):
        if isinstance(a, E):
            if sub(b, a) is not ZERO and st.facts.range(sub(b, a)) != (0, 0):
                yield path, a, b
        else:
            yield path, a, b
        return
    if b.k == 'agg' and not isinstance(a, E):
        try:
            a2 = e.expand(a, b.a[1]) if a.k == 'sym' else a
        except Exception:
            a2 = None
        if a2 is not None and a2.k == 'agg' and a2.a[1] == b.a[1] and len(a2.a[2]) == len(b.a[2]):
            for k, (x, y) in enumerate(zip(a2.a[2], b.a[2])):
                for z in diff(e, st, x, y, '%s.%d' % (path, k)):
                    yield z
            return
    yield path, a, b


def hashed(v):
    """bytes appended to a checksum, None when the value is not a checksum that only grew"""
    if isinstance(v, E) or v.k != 'obj' or v.a[0] != 'Hasher' or not v.a[1] or isinstance(v.a[1][0], E):
        return None
    q = v.a[1][0].a
    if not q or q[0][0] != 's' or not q[0][1].endswith('#fed') or q[0][2] is not ZERO:
        return None
    return Seq(q[1:])


def also(op, h):
    """the properties that rest on a counter (h False) or checksum (h True) of an adapter with this operation"""
    if op in ('poll_write', 'poll_write_vectored'):
        return ('C12',) if h else ('C09', 'C12')
    return ('C17',) if h else ()


def both(R, op, h, rule, ok, where, what):
    for pid in ('C14',) + also(op, h):
        R.ob(pid, rule, ok, where, what)


def run_poll(R):
    s = Sc(True)
    e = s.e
    seen = {}
    for inst, op in adapters(e):
        pt = inst['locals'][1]
        t = e.T(pt)
        if t['k'] != 'adt' or not t['s'].startswith('std::pin::Pin<&mut '):
            continue
        rt = t['variants'][0]['f'][0]['t']
        ty = e.T(rt)['ty']
        where = '%s %s' % (nname(inst), inst.get('span') or '')
        what = nname(inst).split('::')[-1]
        cell, cb = ('scn', 'self'), ('scn', 'buf')
        self0 = Sym('self', ty)
        st = put(State(), cell, self0)
        args = [Agg(pt, 0, (Ref(cell),)), Ref(('sym', 'cx', None))]
        buf0 = None
        if op in ('consume',):
            args = [args[0], S('amt', 0, (1 << 62))]
        else:
            for k in range(2, inst['args']):
                t2 = e.T(inst['locals'][k + 1])
                if t2['k'] != 'ref':
                    break
                buf0 = e.mk_sym('buf', t2['ty'])
                st = put(st, cb, buf0)
                args.append(Ref(cb))
        if len(args) != inst['args']:
            R.ob('C14', 'adapter-understood', None, where, what)
            continue
        for o in s.call(inst, args, st):
            R.count('outcomes')
            if o[0] != 'ret':
                p = o[2]
                pos = p['kind'] == 'assert:overflow:Add' and isinstance(p.get('cond'), E)
                R.ob('C14', 'no-panic', True if pos else None if o[1].lossy else False, where, '%s: %s' % (what, p['kind']))
                continue
            outcome(R, e, s, inst, op, ty, o[1], o[2], self0, cell, buf0, cb, seen, where, what)
    # what is counted on some path is counted on every path that moved bytes
    for (ty, path), rows in seen.items():
        used = any(r[0] for r in rows)
        if not used:
            continue
        for ok, where, what, op, h in rows:
            both(R, op, h, 'counted-on-every-path', ok, where, '%s: bytes were moved but the %s of the adapter (field %s) was not updated' % (what, 'checksum or counter', path))
    if not seen:
        R.ob('C14', 'adapters-present', None, '', 'no accounting adapter found')
    R.analysed(e)


def numeric_fields(e, st, v, path='', depth=0, only=False):
    """paths of integer and checksum fields of an adapter value"""
    if depth > 4:
        return
    if isinstance(v, E):
        if not only:
            yield path
        return
    if v.k == 'sym':
        t = e.T(v.a[1])
        if t['s'].startswith('crc32fast::'):
            yield path
            return
        if t['k'] == 'adt' and t.get('local', True) and t['kind'] == 'struct' and not t['s'].startswith(('std::', 'core::', 'alloc::', 'futures', 'tokio', 'async_compression')):
            try:
                v = e.expand(v, 0)
            except Exception:
                return
    if v.k == 'agg' and v.a[1] == 0:
        for k, x in enumerate(v.a[2]):
            for p in numeric_fields(e, st, x, '%s.%d' % (path, k), depth + 1, only):
                yield p


def outcome(R, e, s, inst, op, ty, st, v, self0, cell, buf0, cb, seen, where, what):
    evs = st.events()
    fw = [ev for ev in evs if ev[0] in FWD]
    pend = [ev for ev in evs if ev[0] == 'pending']
    errs = [ev for ev in evs if ev[0] == 'ioerr']
    lossy = None if st.lossy else False
    after = e.rd(st, Ref(cell))
    changes = list(diff(e, st, self0, after))
    if op == 'consume':
        ok = len(fw) == 1 and fw[0][0] == 'consume' and fw[0][2] is S('amt', 0, 1 << 62)
        R.ob('C14', 'consume-forwarded', ok or lossy, where, '%s: consumes %s of the wrapped reader' % (what, [str(x[2]) for x in fw]))
        return
    if isinstance(v, E) or v.k != 'agg':
        R.ob('C14', 'adapter-understood', None, where, what)
        return
    is_pending = v.a[1] == 1
    res = None if is_pending else v.a[2][0]
    if res is not None and (isinstance(res, E) or res.k != 'agg'):
        R.ob('C14', 'adapter-understood', None, where, what)
        return
    failed = res is not None and res.a[1] == 1
    # pending and errors are the wrapped object's own
    if pend:
        R.ob('C14', 'pending-is-returned', is_pending or lossy, where, '%s: the wrapped object is pending, the adapter returns %s' % (what, str(v)[:80]))
    if is_pending:
        R.ob('C14', 'pending-only-when-wrapped-is', bool(pend) or lossy, where, '%s: returns pending although the wrapped object did not' % what)
    if errs:
        exact = failed and not isinstance(res.a[2][0], E) and res.a[2][0].k == 'sym' and res.a[2][0].a[0] == errs[-1][1]
        R.ob('C14', 'error-is-returned', exact or lossy, where, '%s: the wrapped object failed, the adapter returns %s' % (what, str(v)[:80]))
        R.ob('C24', 'adapter-error-returned', exact or lossy, where, '%s: the wrapped object failed, the adapter returns %s' % (what, str(v)[:80]))
    elif failed:
        R.ob('C14', 'error-only-when-wrapped-failed', lossy, where, '%s: returns an error although the wrapped object did not' % what)
    if is_pending or failed:
        for p, a, b in changes:
            both(R, op, not isinstance(b, E), 'nothing-counted-without-progress', lossy if isinstance(b, E) or hashed(b) is not None and hashed(b).a else None, where, '%s: field %s changes although no bytes were moved' % (what, p))
        if not changes:
            R.ob('C14', 'nothing-counted-without-progress', True, where, what)
        return
    pay = res.a[2][0]
    n_all = [x for x in numeric_fields(e, st, self0)]
    if not fw:
        if op == 'poll_close':
            R.ob('C14', 'close-withheld-only-around-the-sink', None if n_all else True, where, '%s: closing is not forwarded' % what)
            return
        zero = isinstance(pay, E) and st.facts.decide(eq(pay, ZERO)) is True and buf0 is not None
        R.ob('C14', 'forwarded', lossy, where, '%s: succeeds without calling the wrapped object' % what)
        return
    R.ob('C14', 'forwarded-once', len(fw) == 1 or lossy, where, '%s: calls the wrapped object %d times' % (what, len(fw)))
    ev = fw[0]
    if ev[0] in ('write', 'encwrite'):
        n, arg = ev[3], ev[2]
        want = Seq([('s', 'buf', ZERO, length('buf'))])
        R.ob('C14', 'own-buffer', seq_same(e, st, arg, want) if not isinstance(arg, E) else None, where, '%s: hands %s to the wrapped writer' % (what, str(arg)[:80]))
    elif ev[0] == 'writev':
        n = ev[3]
        r = ev[2]
        R.ob('C14', 'own-buffer', True if not isinstance(r, E) and r.k == 'ref' and r.a[0] == cb and not r.a[1] else None, where, '%s: hands %s to the wrapped writer' % (what, str(r)[:80]))
    elif ev[0] in ('read', 'decread'):
        n = ev[3] if ev[0] == 'read' else ev[1]
        _, bs = s.M.seqof(st, Ref(cb))
        if bs is not None and st.facts.decide(eq(n, ZERO)) is not True:
            # the data is at the front of the caller's buffer, the rest untouched
            p = bs.a[0] if bs.a else None
            ok = p is not None and p[0] == 's' and p[1] != 'buf' and same(st, p[3], n) is True
            rest = Seq(bs.a[1:])
            if ok and rest.a:
                ok = seq_same(e, st, rest, e.seq([('s', 'buf', n, sub(length('buf'), n))]))
            R.ob('C14', 'own-buffer', ok or lossy, where, '%s: leaves %s in the caller\'s buffer' % (what, str(bs)[:100]))
    else:
        n = None
    if n is None:
        if ev[0] in ('flush', 'close'):
            R.ob('C14', 'same-operation', (op == 'poll_' + ev[0]) or lossy, where, '%s: calls %s of the wrapped object' % (what, ev[0]))
        for p, a, b in changes:
            R.ob('C14', 'nothing-counted-without-progress', lossy if isinstance(b, E) else None, where, '%s: field %s changes' % (what, p))
        return
    R.ob('C14', 'same-count', same(st, pay, n) if isinstance(pay, E) else None, where, '%s: returns %s for %s of the wrapped object' % (what, pay, show(n)))
    if st.facts.decide(eq(n, ZERO)) is True:
        nz = True
    else:
        nz = st.assume(lt(ZERO, n))
        st = nz or st
    changed = {}
    for p, a, b in changes:
        if isinstance(b, E) and isinstance(a, E):
            ok = same(st, sub(b, a), n)
            both(R, op, False, 'counts-exactly-the-bytes-moved', ok, where, '%s: counter %s grows by %s for %s bytes' % (what, p, show(sub(b, a)), show(n)))
            changed[p] = True
        else:
            h = hashed(b)
            if h is None:
                changed[p] = True
                R.ob('C14', 'state-change-understood', None, where, '%s: field %s' % (what, p))
                continue
            if ev[0] in ('write', 'encwrite'):
                want = e.seq_slice(st, Seq([('s', 'buf', ZERO, length('buf'))]), ZERO, n)
            elif ev[0] == 'writev':
                want = None
            else:
                _, bs = s.M.seqof(st, Ref(cb))
                want = e.seq_slice(st, bs, ZERO, n) if bs is not None else None
            ok = seq_same(e, st, h, want) if want is not None else None
            if h.a:
                changed[p] = True
            both(R, op, True, 'hashes-exactly-the-bytes-moved', ok, where, '%s: checksum %s is fed %s for %s bytes moved' % (what, p, str(h)[:80], show(n)))
    if nz is True:
        return
    hashes = set(numeric_fields(e, st, self0, only=True))
    for p in n_all:
        seen.setdefault((e.T(ty)['s'].split('<')[0], p), []).append((True if p in changed else lossy, where, what, op, p in hashes))
