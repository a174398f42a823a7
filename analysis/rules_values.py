"""C19 (text values), C22 (dates) and C23 (builders, accessors): value functions on unknown arguments."""
import random
from math import gcd
from rulelib import *
from scen import Missing

DT = 'date::ZipDateTime::'
DB = 'date::builder::ZipDateTimeBuilder::'


# ------------------------------------------------------------------ comparison of terms
class NoEval(Exception):
    pass


def ev(t, env):
    """value of a term under an assignment of its atoms (used only to confirm that two terms differ)"""
    k, a = t.k, t.a
    if k == 'c':
        return a
    if t in env:
        return env[t]
    if k in ('s', 'elem', 'len'):
        raise NoEval(t)
    if k == 'lin':
        c, d = to_lin(t)
        return c + sum(ev(x, env) * m for x, m in d.items())
    if k == 'cat':
        r = sh = 0
        for w, s, o in a:
            v = s if isinstance(s, int) else ev(s, env) >> o
            r |= (v & ((1 << w) - 1)) << sh
            sh += w
        return r
    if k == 'uf' and a[0] in ('band', 'bor', 'bxor') and len(a) == 3:
        x, y = ev(a[1], env), ev(a[2], env)
        return x & y if a[0] == 'band' else x | y if a[0] == 'bor' else x ^ y
    if k == 'mul':
        return ev(a[0], env) * ev(a[1], env)
    if k in ('div', 'rem') and len(a) == 2:
        x, y = ev(a[0], env), ev(a[1], env)
        if y == 0:
            raise NoEval(t)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return q if k == 'div' else x - q * y
    raise NoEval(t)


def atoms_of(t, out=None):
    """the atoms of a term, None when it holds something that cannot be evaluated"""
    out = set() if out is None else out
    if t.k == 'c':
        return out
    if t.k in ('s', 'elem', 'len'):
        out.add(t)
        return out
    if t.k == 'lin':
        for x in to_lin(t)[1]:
            atoms_of(x, out)
    elif t.k == 'cat':
        for w, s, o in t.a:
            if not isinstance(s, int):
                atoms_of(s, out)
    elif t.k == 'uf' and t.a[0] in ('band', 'bor', 'bxor'):
        atoms_of(t.a[1], out)
        atoms_of(t.a[2], out)
    elif t.k in ('mul', 'div', 'rem'):
        for x in t.a:
            atoms_of(x, out)
    else:
        out.add(t)
    return out


def differ(st, a, b, tries=400):
    """an assignment, consistent with the path, under which the two terms have different values"""
    if st.lossy or not clean_term(a) or not clean_term(b):
        return None
    at = sorted(atoms_of(a) | atoms_of(b), key=lambda t: t.id)
    if len(at) > 6:
        return None
    rng = random.Random(7)
    for k in range(tries):
        env = {}
        for t in at:
            lo, hi = st.facts.range(t)
            lo, hi = max(lo, -(1 << 64)), min(hi, 1 << 64)
            env[t] = lo if k == 0 else hi if k == 1 else rng.randint(lo, hi)
        try:
            if ev(a, env) == ev(b, env):
                continue
        except NoEval:
            return None
        s2 = st.copy()
        for t in at:
            s2 = s2 and s2.assume(eq(t, C(env[t])))
        if s2 is not None:
            return env
    return None


def bit_list(t, w, depth=0):
    """the w low bits of a term as constants or (atom, bit), None where unknown"""
    if depth > 12:
        return [None] * w
    if t.k == 'c':
        return [(t.a >> i) & 1 for i in range(w)]
    if t.k == 'cat':
        out = []
        for pw, s, o in t.a:
            if isinstance(s, int):
                out += [(s >> i) & 1 for i in range(pw)]
            else:
                out += bit_list(s, o + pw, depth + 1)[o:]
        return (out + [0] * w)[:w]
    if t.k == 'lin':
        c, d = to_lin(t)
        g = 0
        for m in list(d.values()) + [c]:
            g = gcd(g, abs(m))
        g &= -g
        if g > 1 and t.lo >= 0:
            sft = g.bit_length() - 1
            return ([0] * sft + bit_list(from_lin(c // g, {x: m // g for x, m in d.items()}), max(w - sft, 0), depth + 1))[:w]
        if len(d) == 1 and c:
            (x, m), = d.items()
            if m == 1:
                return [(t, i) for i in range(w)] if t.lo < 0 else [(t, i) if (t.hi >> i) else 0 for i in range(w)]
        if c >= 0 and all(m > 0 and m & (m - 1) == 0 for m in d.values()):
            rows = [[(c >> i) & 1 for i in range(w)]]
            for x, m in d.items():
                s = m.bit_length() - 1
                rows.append(([0] * s + bit_list(x, max(w - s, 0), depth + 1))[:w] if s < w else [0] * w)
            out = []
            for col in zip(*rows):
                nz = [b for b in col if b != 0]
                if len(nz) > 1:
                    return [(t, i) for i in range(w)]
                out.append(nz[0] if nz else 0)
            return out
        return [(t, i) for i in range(w)]
    if t.k == 'uf' and t.a[0] in ('band', 'bor', 'bxor') and len(t.a) == 3:
        x, y = bit_list(t.a[1], w, depth + 1), bit_list(t.a[2], w, depth + 1)
        out = []
        for i, (p, q) in enumerate(zip(x, y)):
            if t.a[0] == 'band':
                out.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else (t, i))
            elif t.a[0] == 'bor':
                out.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else (t, i))
            else:
                out.append(q if p == 0 else p if q == 0 else 0 if p == q else (t, i))
        return out
    if t.k == 'div' and t.a[1].k == 'c' and t.a[0].lo >= 0 and t.a[1].a > 0 and t.a[1].a & (t.a[1].a - 1) == 0:
        s = t.a[1].a.bit_length() - 1
        return bit_list(t.a[0], w + s, depth + 1)[s:]
    if t.k == 'rem' and t.a[1].k == 'c' and t.a[0].lo >= 0 and t.a[1].a > 0 and t.a[1].a & (t.a[1].a - 1) == 0:
        s = t.a[1].a.bit_length() - 1
        return (bit_list(t.a[0], min(s, w), depth + 1) + [0] * w)[:w]
    if t.lo >= 0:
        return [(t, i) if t.hi >> i else 0 for i in range(w)]
    return [(t, i) for i in range(w)]


def teq(st, a, b, w=64):
    """True / False (with a witness) / None"""
    if a is b or st.facts.decide(eq(a, b)) is True:
        return True
    # common offset
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    x, y = (from_lin(0, da), from_lin(cb - ca, db)) if ca else (a, b)
    for p, q in ((a, b), (x, y)):
        if p.lo >= 0 and q.lo >= 0:
            P, Q = bit_list(p, w), bit_list(q, w)
            if P == Q:
                return True
    return False if differ(st, a, b) is not None else None


def as_agg(e, v, like):
    if not isinstance(v, E) and v.k == 'sym' and not isinstance(like, E) and like.k == 'agg':
        t = e.T(v.a[1])
        if t['k'] == 'adt' and t['kind'] == 'struct' or t['k'] == 'tuple':
            return e.expand(v, 0)
    return v


def veq(e, st, a, b):
    """values equal: True / False / None"""
    a, b = deref(e, st, a), deref(e, st, b)
    if a is b:
        return True
    if isinstance(a, E) and isinstance(b, E):
        return teq(st, a, b)
    if isinstance(a, E) or isinstance(b, E):
        return None
    a, b = as_agg(e, a, b), as_agg(e, b, a)
    if a is b:
        return True
    if a.k == 'seq' or b.k == 'seq':
        qa, qb = seqv(e, st, a), seqv(e, st, b)
        if qa is None or qb is None:
            return None
        return seq_same(e, st, qa, qb)
    if a.k == 'agg' and b.k == 'agg':
        if a.a[1] != b.a[1]:
            return None if st.lossy else False
        rs = [veq(e, st, x, y) for x, y in zip(a.a[2], b.a[2])]
        return False if False in rs else None if None in rs else True
    for x, y in ((a, b), (b, a)):
        if x.k == 'agg' and y.k == 'sym' and e.T(y.a[1])['k'] == 'adt' and e.T(y.a[1])['kind'] == 'enum':
            t = e.T(y.a[1])
            d = st.facts.const(e.discr(y, st))
            if d is None:
                if not st.lossy and clean(x) and clean(y):
                    # the path leaves the variant open: it need not be this one
                    others = [v for k, v in enumerate(t['variants']) if k != x.a[1]]
                    if any(st.assume(eq(e.discr(y, st), C(v['d']))) is not None for v in others):
                        return False
                    return veq(e, st, x, e.expand(y, x.a[1]))
                return None
            if t['variants'][x.a[1]]['d'] != d:
                return None if st.lossy else False
            return veq(e, st, x, e.expand(y, x.a[1]))
    if a.k == 'sym' and b.k == 'sym':
        return False if clean(a) and clean(b) and not st.lossy else None
    return None


def seqv(e, st, v):
    if v.k == 'seq':
        return v
    if v.k in ('sym', 'ref'):
        try:
            _, q = e.M.seqof(st, v)
            return q
        except Exception:
            return None
    return None


def fn(s, name):
    return s.find(name)


def is_ref(e, t):
    return e.T(t)['k'] == 'ref'


class Ev:
    def __init__(self, R, pids):
        self.R, self.s = R, Sc()
        self.e = self.s.e
        self.pids = pids
        self.n = 0
        e, M = self.e, self.s.M
        base = M.unknown

        def unknown(callee, args, st, ctx):
            p = (callee.get('rpath') or callee['path']).replace('core::', 'std::')
            r = chrono(e, p, callee['path'], args, st, ctx)
            return r if r is not None else base(callee, args, st, ctx)
        M.unknown = unknown

    def cell(self, st, v):
        self.n += 1
        return self.s.cell(st, 'v%d' % self.n, v)

    def run(self, name, vals, st):
        """call with values; arguments of reference type are passed by reference. -> [(state, value)], panics reported"""
        f = self.s.find(name) if isinstance(name, str) else name
        st = st.copy()
        args = []
        for k, v in enumerate(vals):
            if is_ref(self.e, f['locals'][k + 1]) and (isinstance(v, E) or v.k != 'ref'):
                v = self.cell(st, v)
            args.append(v)
        where = '%s %s' % (nname(f), f.get('span') or '')
        res = []
        for o in self.s.call(f, args, st):
            self.R.count('outcomes')
            if o[0] != 'ret':
                z = zero_iterations(self.e, o[1])
                for p in self.pids:
                    self.R.ob(p, 'value-function-returns', None if o[1].lossy or z is None else False, where, '%s: %s in %s' % (nname(f).split('::')[-1], o[2]['kind'], o[2].get('fn')))
                continue
            res.append((o[1], o[2]))
        return res

    def ob(self, pid, rule, ok, f, msg):
        inst = self.s.find(f) if isinstance(f, str) else f
        self.R.ob(pid, rule, ok, '%s %s' % (nname(inst), inst.get('span') or ''), msg)


# ------------------------------------------------------------------ dates
GET = [('year', 'date', 9, 7, 1980, 0), ('month', 'date', 5, 4, 0, 0), ('day', 'date', 0, 5, 0, 0),
       ('hour', 'time', 11, 5, 0, 0), ('minute', 'time', 5, 6, 0, 0), ('second', 'time', 0, 5, 0, 1)]
RANGE = dict(year=(1980, 2107), month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 59), nanosecond=(0, 1999999999))
PASS = ('date_naive', 'naive_utc', 'naive_local', 'time', 'date', 'with_timezone', 'clone', 'to_utc', 'fixed_offset', 'to_owned')


def origin(e, st, v):
    v = deref(e, st, v)
    return v.a[0] if not isinstance(v, E) and v.k == 'sym' else None


def chrono(e, p, path, args, st, ctx):
    """calendar accessors of chrono: pure functions of the value"""
    if 'chrono' not in p and 'chrono' not in path:
        return None
    last = p.split('::')[-1]
    o = origin(e, st, args[0]) if args else None
    if o is None or not o.startswith('cal'):
        if last == 'with_ymd_and_hms' and len(args) == 7 and all(isinstance(x, E) for x in args[1:]):
            st.emit('chrono', tuple(args[1:]))
            return e.M.ret(st, Sym('calres', ctx['dty']))
        return None
    if last in PASS and e.T(ctx['dty'])['k'] == 'adt':
        return e.M.ret(st, Sym(o, ctx['dty']))
    if last in RANGE:
        return e.M.ret(st, S(o + '.' + last, *RANGE[last]))
    if last in ('month0', 'day0'):
        return e.M.ret(st, sub(S(o + '.' + last[:-1], *RANGE[last[:-1]]), ONE))
    return None


def wanted(st, name, base, off, w, plus, shift_, fields):
    t = slc(fields[base], off, w)
    if shift_:
        t = mkcat([(shift_, 0, 0)] + pieces(t, w))
    return add(t, C(plus))


def run_date(R):
    x = Ev(R, ('C22',))
    e, s = x.e, x.s
    dty = s.find(DT + 'year')['locals'][1]
    dty = e.T(dty)['ty'] if is_ref(e, dty) else dty
    z0 = Sym('z', dty)
    z0 = e.expand(z0, 0)
    raw = [(k, v) for k, v in enumerate(z0.a[2]) if isinstance(v, E)]
    # which raw field is the date, which the time: the one the getters read
    sup = {}
    for g in GET:
        for st, v in x.run(DT + g[0], [z0], State()):
            if isinstance(v, E):
                sup.setdefault(g[1], set()).update(a for a in atoms_of(v))
    R.ob('C22', 'date-and-time-words', True if all(len(sup.get(k, ())) == 1 for k in ('date', 'time')) and sup['date'] != sup['time'] else None if not sup else None, DT, 'the getters read %s' % {k: [show(a) for a in v] for k, v in sup.items()})
    words = {}
    for k in ('date', 'time'):
        c = [a for a in sup.get(k, ()) if any(a is v for _, v in raw)]
        # a getter that reads the other word too is judged by its value below
        names = [a for a in c if ('.' + k) in show(a)]
        if len(names or c) == 1:
            words[k] = (names or c)[0]
    if len(words) != 2:
        R.ob('C22', 'date-and-time-words', None, DT, 'the raw representation is not understood')
        R.analysed(e)
        return
    for g in GET:
        for st, v in x.run(DT + g[0], [z0], State()):
            w = wanted(st, *g, fields=words)
            if isinstance(v, E):
                v2 = v
                ok = teq(st, v2, w)
            else:
                ok = None
            x.ob('C22', 'component-in-its-bits', ok, DT + g[0], '%s() is %s, MS-DOS defines %s' % (g[0], str(v)[:160], show(w)[:160]))
    idx = {k: [i for i, v in raw if v is words[k]][0] for k in words}
    # setters, on a builder in any state
    bty = s.find(DB + 'year')['locals'][1]

    def value_of(b):
        """the date under construction"""
        b = as_agg(e, deref(e, State(), b), Agg(bty, 0, ()))
        return b

    for g in GET:
        lo, hi = RANGE[g[0]]
        # every value the bits can hold is accepted, not only calendar ones
        lo, hi = (lo, hi) if g[0] == 'year' else (0, ((1 << g[3]) - 1) << g[5])
        fields = dict(words)
        b0 = find_builder(x, bty, z0)
        if b0 is None:
            R.ob('C22', 'builder-understood', None, DB + g[0], '')
            return
        if g[0] == 'second':
            v = mkcat([(1, 0, 0), (5, S('half', 0, 31), 0)])
        else:
            v = S('v', lo, hi)
        for st, b in x.run(DB + g[0], [b0], State()) if False else x.run(DB + g[0], [b0, v], State()):
            for st2, d in x.run(DB + 'build', [b], st):
                for h in GET:
                    for st3, got in x.run(DT + h[0], [d], st2):
                        want = v if h is g else wanted(st3, *h, fields=fields)
                        ok = teq(st3, got, want) if isinstance(got, E) else None
                        rule = 'set-then-get' if h is g else 'other-components-unchanged'
                        x.ob('C22', rule, ok, DB + g[0], 'after %s(%s), %s() is %s, expected %s' % (g[0], show(v), h[0], str(got)[:160], show(want)[:120]))
    # builder <-> date
    for st, b in x.run(conv(x, z0, bty), [z0], State()):
        for st2, d in x.run(DB + 'build', [b], st):
            x.ob('C22', 'conversion-is-identity', veq(e, st2, d, z0), DB + 'build', 'date -> builder -> date gives %s' % str(d)[:160])
    # calendar types
    n = 0
    for i in e.I:
        if not (i['local'] and i['blocks'] and i.get('root') and not i.get('promoted') and i['args'] == 1 and i.get('dk') in ('Fn', 'AssocFn')):
            continue
        at = i['locals'][1]
        base = e.T(at)['ty'] if is_ref(e, at) else at
        an, rn = e.T(base)['s'], e.T(i['locals'][0])['s']
        if an.startswith('chrono::DateTime') and i['locals'][0] == dty:
            n += 1
            for st, d in x.run(i, [Sym('cal', base)], State()):
                for h in GET:
                    want = S('cal.' + h[0], *RANGE[h[0]])
                    if h[0] == 'second':
                        want = mkcat([(1, 0, 0)] + pieces(slc(want, 1, 5), 5))
                    for st3, got in x.run(DT + h[0], [d], st):
                        x.ob('C22', 'from-calendar', teq(st3, got, want) if isinstance(got, E) else None, i, '%s() of the converted value is %s, expected %s' % (h[0], str(got)[:160], show(want)))
        elif base == dty and 'chrono::' in rn and 'DateTime<' in rn:
            n += 1
            for st, v in x.run(i, [z0], State()):
                c = [q for q in st.events() if q[0] == 'chrono']
                if len(c) != 1 or isinstance(v, E) or v.k != 'sym' or v.a[0] != 'calres':
                    x.ob('C22', 'to-calendar', None, i, 'conversion not understood')
                    continue
                for h, got in zip(GET, c[0][1]):
                    want = wanted(st, *h, fields=words)
                    x.ob('C22', 'to-calendar', teq(st, got, want), i, 'the %s handed to the calendar type is %s, expected %s' % (h[0], show(got)[:160], show(want)[:120]))
    R.count('calendar_conversions', n)
    R.analysed(e)


def conv(x, v, to):
    """the local From conversion from the type of v to another type"""
    e = x.e
    ty = v.a[0] if v.k == 'agg' else v.a[1]
    for i in e.I:
        if i['local'] and i['blocks'] and i.get('root') and i.get('fn_name') == 'from' and (i.get('impl_trait') or '').split('<')[0].endswith('From') and i['locals'][0] == to and i['locals'][1] == ty:
            return i
    raise Missing('From<%s> for %s' % (e.T(ty)['s'], e.T(to)['s']))


def find_builder(x, bty, z0):
    """the builder around an arbitrary value, by its own From conversion"""
    r = x.run(conv(x, z0, bty), [z0], State())
    return r[0][1] if len(r) == 1 else None


# ------------------------------------------------------------------ builders and accessors
EB = 'entry::builder::ZipEntryBuilder::'
ZE = 'entry::ZipEntry::'
ATTR = ['filename', 'compression', 'crc32', 'compressed_size', 'uncompressed_size', 'attribute_compatibility',
        'last_modification_date', 'internal_file_attribute', 'external_file_attribute', 'extra_fields', 'comment']
RANGES = dict(crc32=(0, (1 << 32) - 1), compressed_size=(0, (1 << 64) - 1), uncompressed_size=(0, (1 << 64) - 1))


def run_builder(R):
    x = Ev(R, ('C23',))
    e, s = x.e, x.s
    ety = e.T(s.find(ZE + 'filename')['locals'][1])['ty']
    en0 = Sym('en', ety)
    bty = s.find(EB + 'filename')['locals'][1]
    r = x.run(conv(x, en0, bty), [en0], State())
    b0 = r[0][1]

    def attrs(st, en):
        """{attribute: [(state, value)]}"""
        return {a: [(q, deref(e, q, v)) for q, v in x.run(ZE + a, [en], st)] for a in ATTR}
    before = {a: r[0][1] for a, r in attrs(State(), en0).items() if len(r) == 1}
    for a in ATTR:
        x.ob('C23', 'accessor-understood', True if a in before else None, ZE + a, '')
    # distinct accessors read distinct attributes
    for i, a in enumerate(ATTR):
        for b in ATTR[:i]:
            if a in before and b in before:
                x.ob('C23', 'accessors-distinct', before[a] is not before[b], ZE + a, '%s() and %s() return the same attribute' % (a, b))

    def check(setter, args, expect, note=''):
        """expect: {attribute: value}"""
        for st, b in x.run(EB + setter, [b0] + args, State()):
            for st2, en in x.run(EB + 'build', [b], st):
                for a in ATTR:
                    if a not in before and a not in expect:
                        continue
                    want = expect[a] if a in expect else before[a]
                    for st3, got in x.run(ZE + a, [en], st2):
                        got = deref(e, st3, got)
                        rule = 'set-then-get' if a in expect else 'other-attributes-unchanged'
                        x.ob('C23', rule, veq(e, st3, got, want), EB + setter, 'after %s, %s() is %s, expected %s' % (setter, a, str(got)[:140], str(want)[:100]))
                # everything else an entry holds
                rest(setter, st2, en, expect)
            for st2, cur in x.run(EB + 'current', [b], st):
                for st3, en in x.run(EB + 'build', [b], st):
                    x.ob('C23', 'current-is-the-built-entry', veq(e, st3, deref(e, st2, cur), en), EB + 'current', '%s: current() is %s' % (setter, str(deref(e, st2, cur))[:100]))

    base = e.expand(en0, 0)
    fields = e.T(ety)['variants'][0]['f']
    read_by = {}
    for a in before:
        for k, v in enumerate(base.a[2]):
            if any(w is v for w in (before[a],)) or (not isinstance(before[a], E) and not isinstance(v, E) and before[a].k == 'seq' and v.k == 'sym' and v.a[0] in str(before[a])):
                read_by[k] = a

    def rest(setter, st, en, expect):
        en = as_agg(e, deref(e, st, en), base)
        if isinstance(en, E) or en.k != 'agg':
            return
        for k, (v, w) in enumerate(zip(base.a[2], en.a[2])):
            if k in read_by:
                continue
            ok = veq(e, st, w, v)
            if setter == 'deflate_option' and ok is not True:
                lv = s.byname.get('spec::compression::DeflateOption::into_level')
                if lv:
                    oks = [veq(e, q, w, lvl) for q, lvl in x.run(lv[0], [Sym('v', lv[0]['locals'][1])], st)]
                    ok = True if True in oks else None if None in oks or not oks else False
            if ok is False and len(before) < len(ATTR):
                ok = None       # it may be what an accessor that was not understood reads
            x.ob('C23', 'other-attributes-unchanged', ok, EB + setter, 'after %s, field %s of the entry is %s, was %s' % (setter, fields[k].get('n', k), str(w)[:120], str(v)[:80]))

    for a in ATTR:
        f = s.find(EB + a)
        t = f['locals'][2]
        if a in RANGES:
            v = Sym('v', t)
            want = None
            # the conversion into the attribute's type is the caller's
            for st, b in x.run(EB + a, [b0, v], State()):
                for st2, en in x.run(EB + 'build', [b], st):
                    for st3, got in x.run(ZE + a, [en], st2):
                        if isinstance(got, E) and got.k == 's' and got.a[0] in ('v.into', 'v'):
                            want = got
                        x.ob('C23', 'set-then-get', True if want is not None else None if not isinstance(got, E) or st3.lossy or not clean_term(got) else False, EB + a, 'after %s(v), %s() is %s' % (a, a, str(got)[:140]))
            if want is not None:
                check(a, [v], {a: want})
            else:
                # what else changed
                check(a, [v], {a: before.get(a)}) if False else None
            continue
        v = e.mk_sym('v', t)
        check(a, [v], {a: v})
    if s.has(EB + 'deflate_option'):
        f = s.find(EB + 'deflate_option')
        check('deflate_option', [e.mk_sym('v', f['locals'][2])], {})
    # unix permissions: the upper half of the external attribute
    mode = S('mode', 0, 0xFFFF)
    ext = before.get('external_file_attribute')
    if isinstance(ext, E):
        want = mkcat([(16, ext, 0), (16, mode, 0)])
        check('unix_permissions', [mode], {'external_file_attribute': want})
        for st, v in x.run(ZE + 'unix_permissions', [en0], State()):
            ok = None
            if not isinstance(v, E) and v.k == 'agg':
                if v.a[1] == 1:
                    ok = teq(st, v.a[2][0], slc(ext, 16, 16)) if isinstance(v.a[2][0], E) else None
                else:
                    # None is only for entries of other hosts
                    u = e.T(before['attribute_compatibility'].a[1])['variants'] if not isinstance(before['attribute_compatibility'], E) and before['attribute_compatibility'].k == 'sym' else None
                    d = [q['d'] for q in u if q['n'] == 'Unix'] if u else []
                    ok = None if not d or st.lossy else True if st.facts.decide(eq(e.discr(before['attribute_compatibility'], st), C(d[0]))) is False else False
            x.ob('C23', 'permissions-are-the-upper-half', ok, ZE + 'unix_permissions', 'unix_permissions() is %s' % str(v)[:160])
        for st, b in x.run(EB + 'unix_permissions', [b0, mode], State()):
            for st2, en in x.run(EB + 'build', [b], st):
                for st3, v in x.run(ZE + 'unix_permissions', [en], st2):
                    ok = teq(st3, v.a[2][0], mode) if not isinstance(v, E) and v.k == 'agg' and v.a[1] == 1 else None if isinstance(v, E) or st3.lossy else False
                    x.ob('C23', 'permissions-set-then-get', ok, ZE + 'unix_permissions', 'after unix_permissions(mode): %s' % str(v)[:120])
    # directory test
    if s.has(ZE + 'dir') and 'filename' in before:
        fnm = deref(e, State(), before['filename'])
        for st, v in x.run(ZE + 'dir', [en0], State()):
            enc = [r_ for r_ in x.run('string::ZipString::encoding', [fnm], st)]
            if isinstance(v, E) or v.k != 'agg' or not enc:
                x.ob('C23', 'dir', None, ZE + 'dir', 'not understood')
                continue
            for st2, ec in enc:
                names = [n for _, n, _ in fork_variant(e, ec, st2)] if not isinstance(ec, E) else []
                if v.a[1] == 1:
                    x.ob('C23', 'dir', (names == ['Raw']) or (None if st2.lossy else False), ZE + 'dir', 'dir() fails for text of encoding %s' % names)
                    continue
                for st3, q in x.run('string::ZipString::as_bytes', [fnm], st2):
                    q = seqv(e, st3, deref(e, st3, q))
                    got = v.a[2][0]
                    if q is None or not isinstance(got, E):
                        x.ob('C23', 'dir', None, ZE + 'dir', 'not understood')
                        continue
                    n = e.seq_len(q)
                    if st3.facts.decide(eq(n, ZERO)) is True:
                        ok = got is ZERO
                    else:
                        last = e.seq_at(st3, q, sub(n, ONE)) if hasattr(e, 'seq_at') else None
                        at = q.a[0][1] if len(q.a) == 1 and q.a[0][0] == 's' else None
                        want = eq(elem(at, sub(n, ONE)), C(47)) if at else None
                        ok = None if want is None else True if got is want else None if st3.lossy or not clean_term(got) else False
                    x.ob('C23', 'dir', ok, ZE + 'dir', 'dir() is %s for a name of length %s' % (show(got)[:120], show(n)))
    # a new builder holds what it was given
    f = s.find(EB + 'new')
    fn_, cm = e.mk_sym('nm', f['locals'][1]), e.mk_sym('cm', f['locals'][2])
    for st, b in x.run(EB + 'new', [fn_, cm], State()):
        for st2, en in x.run(EB + 'build', [b], st):
            for a, want in (('filename', fn_), ('compression', cm)):
                for st3, got in x.run(ZE + a, [en], st2):
                    x.ob('C23', 'set-then-get', veq(e, st3, got, want), EB + 'new', 'after new(), %s() is %s' % (a, str(got)[:120]))
            # and nothing else
            for a in ATTR:
                if a in ('filename', 'compression') or not s.has(ZE + a):
                    continue
                for st3, got in x.run(ZE + a, [en], st2):
                    got = deref(e, st3, got)
                    if isinstance(got, E):
                        ok = same(st3, got, ZERO)
                    elif a == 'extra_fields':
                        q = seqv(e, st3, got)
                        ok = None if q is None else same(st3, e.seq_len(q), ZERO)
                    elif a == 'comment':
                        bs = [seqv(e, st4, deref(e, st4, b4)) for st4, b4 in x.run('string::ZipString::as_bytes', [got], st3)]
                        ok = None if not bs or bs[0] is None else same(st3, e.seq_len(bs[0]), ZERO)
                    elif a == 'last_modification_date':
                        ds = [v for i in e.I if i['local'] and i['blocks'] and i.get('root') and i.get('fn_name') == 'default' and i['args'] == 0 and e.T(i['locals'][0])['s'].endswith('ZipDateTime') for _, v in x.run(i, [], st3)]
                        ok = veq(e, st3, got, ds[0]) if ds else None
                    else:
                        continue
                    x.ob('C23', 'new-entry-has-only-what-was-given', ok, EB + 'new', 'after new(), %s() is %s' % (a, str(got)[:120]))
    # conversions change nothing
    for st, en in x.run(EB + 'build', [b0], State()):
        x.ob('C23', 'conversion-is-identity', veq(e, st, en, en0), EB + 'build', 'entry -> builder -> entry gives %s' % str(en)[:120])
    # the archive's own builder and value
    FB, ZF = 'file::builder::ZipFileBuilder::', 'file::ZipFile::'
    if s.has(FB + 'comment'):
        fty = e.T(s.find(ZF + 'comment')['locals'][1])['ty']
        f0 = Sym('fl', fty)
        fb = s.find(FB + 'comment')
        c = e.mk_sym('v', fb['locals'][2])
        bb = x.run(conv(x, f0, fb['locals'][1]), [f0], State())[0][1]
        for st, b in x.run(FB + 'comment', [bb, c], State()):
            for st2, fl in x.run(FB + 'build', [b], st):
                for a, want in (('comment', c), ('entries', None), ('zip64', None)):
                    w0 = [deref(e, q, v) for q, v in x.run(ZF + a, [f0], State())]
                    for st3, got in x.run(ZF + a, [fl], st2):
                        got = deref(e, st3, got)
                        w = want if want is not None else w0[0]
                        x.ob('C23', 'set-then-get' if want is not None else 'other-attributes-unchanged', veq(e, st3, got, w), FB + 'comment', 'after comment(v), %s() is %s' % (a, str(got)[:120]))
        makers = [FB + 'new'] + [i for i in e.I if i['local'] and i['blocks'] and i.get('root') and i.get('fn_name') == 'default' and i['locals'][0] == fb['locals'][1]]
        for mk in makers:
            if isinstance(mk, str) and not s.has(mk):
                continue
            for st, b in x.run(mk, [], State()):
                for st2, fl in x.run(FB + 'build', [b], st):
                    for a in ('entries', 'zip64', 'comment'):
                        for st3, got in x.run(ZF + a, [fl], st2):
                            got = deref(e, st3, got)
                            if a == 'comment':
                                bs = [seqv(e, st4, deref(e, st4, b4)) for st4, b4 in x.run('string::ZipString::as_bytes', [got], st3)]
                                got = bs[0] if bs and bs[0] is not None else got
                            q = None if isinstance(got, E) else seqv(e, st3, got)
                            ok = same(st3, got, ZERO) if isinstance(got, E) else None if q is None else same(st3, e.seq_len(q), ZERO)
                            x.ob('C23', 'new-archive-is-empty', ok, mk, 'a new archive description has %s() %s' % (a, str(got)[:80]))
        for st, fl in x.run(FB + 'build', [bb], State()):
            x.ob('C23', 'conversion-is-identity', veq(e, st, fl, f0), FB + 'build', 'file -> builder -> file gives %s' % str(fl)[:120])
    # a stored entry dereferences to its entry
    SD = [i for i in e.I if i['local'] and i['blocks'] and i.get('root') and i.get('fn_name') == 'deref' and 'StoredZipEntry' in nname(i)]
    for i in SD:
        t = e.T(i['locals'][1])['ty']
        se = e.expand(Sym('se', t), 0)
        for st, v in x.run(i, [se], State()):
            v = deref(e, st, v)
            inner = [q for q in se.a[2] if not isinstance(q, E) and q.k == 'sym' and q.a[1] == ety]
            x.ob('C23', 'stored-entry-is-its-entry', True if len(inner) == 1 and v is inner[0] else None if st.lossy else False, i, 'deref() is %s' % str(v)[:100])
    R.analysed(e)


# ------------------------------------------------------------------ text
ZS = 'string::ZipString::'


def utf8_known(st, q):
    return not q.a or any(st.facts.decide(uf(p, (q,), 0, 1)) is True for p in ('utf8', 'ascii'))


def run_string(R):
    x = Ev(R, ('C19',))
    e, s = x.e, x.s
    zty = e.T(s.find(ZS + 'as_str')['locals'][1])['ty']

    def parts(st, v):
        """[(state, bytes, encoding variant names, alternative)]"""
        out = []
        for st1, b in x.run(ZS + 'as_bytes', [v], st):
            q = deref(e, st1, b)
            q = None if isinstance(q, E) else seqv(e, st1, q)
            for st2, ec in x.run(ZS + 'encoding', [v], st1):
                for st3, name, _ in fork_variant(e, ec, st2):
                    for st4, alt in x.run(ZS + 'alternative', [v], st3):
                        out.append((st4, q, name, alt))
        return out

    def text_of(st, a):
        a = deref(e, st, a)
        return None if isinstance(a, E) else seqv(e, st, a)

    def existing(st, v):
        """an existing value satisfies the invariant its constructors establish: marked UTF-8 only with valid bytes"""
        out = []
        for st1, q, enc, _ in parts(st, v):
            if enc == 'Utf8' and q is not None:
                st1 = st1.assume(eq(uf('utf8', (q,), 0, 1), ONE))
            if st1 is not None:
                out.append(st1)
        return out

    # every function of the crate that builds a text value
    makers = []
    for i in e.I:
        if not (i['local'] and i['blocks'] and not i.get('promoted')):
            continue
        for b in i['blocks']:
            if b is None:
                continue
            if i['locals'][0] == zty and i.get('root') or any(z[0] == '=' and makes(z[2], zty) for z in b['s'] or () if isinstance(z, list) and z):
                makers.append(i)
                break
    R.count('text_constructors', len(makers))
    for i in makers:
        if e.T(i['locals'][0])['k'] == 'coroutine' or i['locals'][0] != zty:
            # built inside a larger function: its readers are judged where they return it
            R.ob('C19', 'constructor-analysed', None if i.get('root') and False else True, nname(i), 'text value built inside %s' % nname(i))
            continue
        st0 = State()
        args, strs = [], []
        clone = None
        for k in range(i['args']):
            t = i['locals'][k + 1]
            base = e.T(t)['ty'] if is_ref(e, t) else t
            v = e.mk_sym('a%d' % k, base)
            if base == zty:
                clone = v
            ts = e.T(base)['s']
            if ts in ('str', 'std::string::String', 'alloc::string::String'):
                q = seqv(e, st0, v) if not isinstance(v, E) else None
                if q is not None:
                    strs.append(q)
            args.append(v)
        st0 = State()
        for q in strs:
            st0 = st0.assume(eq(uf('utf8', (q,), 0, 1), ONE)) or st0
        for st00 in existing(st0, clone) if clone is not None else [st0]:
          for st, v in x.run(i, args, st00):
            for st2, q, name, alt in parts(st, v):
                if name == 'Utf8':
                    if q is None:
                        ok = None
                    else:
                        ok = utf8_known(st2, q)
                        # a function clients cannot call may rely on its callers, which are judged themselves
                        ok = ok or (None if st2.lossy or not clean(q) or not i['vis'] else False)
                    x.ob('C19', 'utf8-only-when-validated', ok, i, 'value marked UTF-8 with bytes %s' % str(q)[:120])
    # the public constructors keep the bytes they are given
    f = s.find(ZS + 'new')
    a0, a1 = e.mk_sym('a0', f['locals'][1]), e.mk_sym('a1', f['locals'][2])
    for st, v in x.run(ZS + 'new', [a0, a1], State()):
        for st2, q, name, alt in parts(st, v):
            x.ob('C19', 'bytes-kept', veq(e, st2, q, a0) if q is not None else None, ZS + 'new', 'as_bytes() is %s' % str(q)[:120])
            asked = [n for _, n, _ in fork_variant(e, a1, st2)]
            if name == 'Raw':
                # refused only when not asked for or not valid
                q0 = seqv(e, st2, a0)
                ok = asked == ['Raw'] or (q0 is not None and st2.facts.decide(uf('utf8', (q0,), 0, 1)) is False)
                x.ob('C19', 'valid-text-is-utf8', ok or (None if st2.lossy or q0 is None else False), ZS + 'new', 'valid UTF-8 text asked to be UTF-8 is marked raw')
            else:
                x.ob('C19', 'encoding-as-asked', asked == ['Utf8'] or (None if st2.lossy else False), ZS + 'new', 'marked UTF-8 although asked for %s' % asked)
    if s.has(ZS + 'new_with_alternative'):
        f = s.find(ZS + 'new_with_alternative')
        a0, a1 = e.mk_sym('a0', f['locals'][1]), e.mk_sym('a1', f['locals'][2])
        for st, v in x.run(f, [a0, a1], State()):
            for st2, q, name, alt in parts(st, v):
                x.ob('C19', 'bytes-kept', veq(e, st2, q, a0) if q is not None else None, f, 'as_bytes() is %s' % str(q)[:120])
                x.ob('C19', 'encoding-as-asked', name == 'Utf8' or None, f, 'text is marked %s' % name)
                al = alt.a[2][0] if not isinstance(alt, E) and alt.k == 'agg' and alt.a[1] == 1 else None
                ok = veq(e, st2, al, a1) if al is not None else None if isinstance(alt, E) or alt.k != 'agg' or st2.lossy else False
                x.ob('C19', 'alternative-kept', ok, f, 'alternative() is %s' % str(alt)[:100])
    for i in e.I:
        if i['local'] and i['blocks'] and i.get('root') and i.get('fn_name') == 'from' and i['locals'][0] == zty:
            t = i['locals'][1]
            base = e.T(t)['ty'] if is_ref(e, t) else t
            if e.T(base)['s'] not in ('str', 'std::string::String', 'alloc::string::String'):
                continue
            a0 = e.mk_sym('a0', base)
            for st, v in x.run(i, [a0], State()):
                for st2, q, name, alt in parts(st, v):
                    x.ob('C19', 'bytes-kept', veq(e, st2, q, a0) if q is not None else None, i, 'as_bytes() is %s' % str(q)[:120])
                    x.ob('C19', 'encoding-as-asked', name == 'Utf8' or (None if st2.lossy else False), i, 'a Rust string is marked %s' % name)
                    none = not isinstance(alt, E) and alt.k == 'agg' and alt.a[1] == 0
                    x.ob('C19', 'alternative-kept', none or (None if st2.lossy or isinstance(alt, E) else False), i, 'alternative() is %s' % str(alt)[:100])
    # text is handed out only for UTF-8 values, and unchanged
    z = Sym('z', zty)
    for name in ('as_str', 'into_string'):
        for st, v in [r for st0 in existing(State(), z) for r in x.run(ZS + name, [z], st0)]:
            for st2, q, enc, alt in parts(st, z):
                if isinstance(v, E) or v.k != 'agg':
                    x.ob('C19', 'text-only-when-utf8', None, ZS + name, '')
                    continue
                if v.a[1] == 1:
                    er = variant(e, v.a[2][0], st2)
                    x.ob('C19', 'utf8-text-handed-out', enc == 'Raw' or (None if st2.lossy else False), ZS + name, '%s fails for UTF-8 text' % name)
                    x.ob('C19', 'not-utf8-error', er == 'StringNotUtf8' if er else None, ZS + name, '%s fails with %s' % (name, er))
                    continue
                x.ob('C19', 'text-only-when-utf8', enc == 'Utf8' or (None if st2.lossy else False), ZS + name, '%s hands out text of encoding %s' % (name, enc))
                t = text_of(st2, v.a[2][0])
                x.ob('C19', 'text-is-the-bytes', veq(e, st2, t, q) if t is not None and q is not None else None, ZS + name, '%s is %s' % (name, str(t)[:100]))
    # accessors of the alternative and of the combined question
    for st, v in x.run(ZS + 'is_utf8_without_alternative', [z], State()) if s.has(ZS + 'is_utf8_without_alternative') else []:
        for st2, q, enc, alt in parts(st, z):
            if not isinstance(v, E) or isinstance(alt, E) or alt.k != 'agg':
                x.ob('C19', 'combined-question', None, ZS + 'is_utf8_without_alternative', '')
                continue
            want = ONE if enc == 'Utf8' and alt.a[1] == 0 else ZERO
            x.ob('C19', 'combined-question', teq_bool(st2, v, want), ZS + 'is_utf8_without_alternative', 'is %s for encoding %s, alternative %s' % (show(v), enc, alt.a[1] == 1))
    if s.has(ZS + 'into_alternative'):
        for st, v in x.run(ZS + 'into_alternative', [z], State()):
            for st2, alt in x.run(ZS + 'alternative', [z], st):
                for st3, n1, v1 in fork_variant(e, v, st2) if not isinstance(v, E) else []:
                    for st4, n2, v2 in fork_variant(e, alt, st3) if not isinstance(alt, E) else []:
                        ok = n1 == n2 and (n1 == 'None' or veq(e, st4, v1.a[2][0], v2.a[2][0]))
                        x.ob('C19', 'alternative-kept', ok if ok or ok is None else (None if st4.lossy else False), ZS + 'into_alternative', '%s, alternative() is %s' % (str(v)[:80], str(alt)[:80]))
    # a clone is the same value
    for i in e.I:
        if i['local'] and i['blocks'] and i.get('root') and i.get('fn_name') == 'clone' and i['locals'][0] == zty:
            for st, v in x.run(i, [z], State()):
                x.ob('C19', 'clone-is-the-value', veq(e, st, v, z), i, 'clone is %s' % str(v)[:120])
    immutable(x, zty, parts)
    R.analysed(e)


def teq_bool(st, v, want):
    if v is want:
        return True
    d = st.facts.decide(eq(v, want))
    return d if d is not None and (d or not st.lossy) else None


def makes(r, ty):
    return isinstance(r, list) and r and r[0] == 'agg' and len(r) > 2 and isinstance(r[2], list) and r[2] and r[2][0] == ty


def immutable(x, zty, parts):
    """nothing that is handed an existing value by mutable reference changes its bytes or encoding, or gives them away"""
    e, s = x.e, x.s
    n = 0
    for i in e.I:
        if not (i['local'] and i['blocks'] and i.get('root') and not i.get('promoted') and i.get('dk') in ('Fn', 'AssocFn')):
            continue
        ks = [k for k in range(i['args']) if is_ref(e, i['locals'][k + 1]) and e.T(i['locals'][k + 1]).get('mut') and e.T(i['locals'][k + 1])['ty'] == zty]
        if not ks:
            continue
        n += 1
        rt = e.T(i['locals'][0])['s']
        x.ob('C19', 'no-mutable-access', '&mut ' not in rt if '&mut ' not in rt or i.get('vis') else None, i, '%s hands out %s' % (nname(i), rt))
        args, cells = [], {}
        st = State()
        for k in range(i['args']):
            t = i['locals'][k + 1]
            v = e.mk_sym('m%d' % k, e.T(t)['ty'] if is_ref(e, t) else t)
            if is_ref(e, t):
                v = x.s.cell(st, 'imm%d' % k, v)
                if k in ks:
                    cells[k] = v
            args.append(v)
        for st1, _ in x.run(i, args, st):
            for k, c in cells.items():
                new, old = e.rd(st1, c), e.mk_sym('m%d' % k, zty)
                for st2, q, enc, alt in parts(st1, new):
                    for st3, q0, enc0, alt0 in parts(st2, old):
                        ok = None if q is None or q0 is None else veq(e, st3, q, q0)
                        x.ob('C19', 'value-not-changed', ok, i, '%s changes the bytes of a value to %s' % (nname(i), str(q)[:100]))
                        x.ob('C19', 'value-not-changed', enc == enc0 or (None if st3.lossy else False), i, '%s changes the encoding of a value from %s to %s' % (nname(i), enc0, enc))
    x.R.count('mutable_text_functions', n)
