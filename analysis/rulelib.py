"""Shared helpers for rules: equality of abstract values, output walking, accessors."""
from scen import *
from terms import *
from values import *
from facts import Facts


class Multi:
    """routes obligations to the report of the property they belong to"""

    def __init__(self, *reports):
        self.r = {r.pid: r for r in reports}

    # unsound text is undefined behaviour: str must be UTF-8
    ALSO = {'unchecked-text-validated': 'C37', 'utf8-is-validated': 'C37', 'utf8-only-when-validated': 'C37', 'text-only-when-utf8': 'C37'}

    def want(self, *pids):
        return any(p in self.r for p in pids)

    def ob(self, pid, rule, ok, where='', msg=''):
        r = self.r.get(pid)
        if r is not None:
            r.ob(rule, ok, where, msg)
        if pid == 'C19' and rule in self.ALSO and self.ALSO[rule] in self.r:
            self.r[self.ALSO[rule]].ob(rule, ok, where, msg)
        return ok

    def count(self, name, n=1):
        for r in self.r.values():
            r.count(name, n)

    def analysed(self, e):
        for r in self.r.values():
            r.analysed(e)


class Mapped(Multi):
    """records the obligations of the listed properties as those of another"""

    def __init__(self, R, to, props, note):
        self.R, self.to, self.props, self.note = R, to, props, note
        self.r = {}

    def want(self, *pids):
        return any(p in self.props for p in pids)

    def ob(self, pid, rule, ok, where='', msg=''):
        if pid in self.props or pid == self.to:
            self.R.ob(self.to, rule, ok, '%s [%s]' % (where, self.note), '%s: %s' % (self.note, msg))
        return ok

    def count(self, name, n=1):
        self.R.count(name, n)

    def analysed(self, e):
        self.R.analysed(e)


_clean = {}


def loop_name(n):
    """a value as it stands after some number of loop iterations"""
    return n[:1] == 'L' and ':' in n and n[1:n.index(':')].isdigit()


def clean_term(t):
    """the term contains nothing the analysis had to forget"""
    v = _clean.get(t)
    if v is None:
        v = True
        for x in subterms(t):
            if x.k in ('s', 'uf', 'elem', 'len'):
                n = x.a[0] if x.a else ''
                if isinstance(n, str) and ('?' in n or n.startswith('opaque') or n.startswith('~') or loop_name(n)):
                    v = False
                    break
        _clean[t] = v
    return v


def zero_iterations(e, st):
    """the state restricted to the paths on which every summarised loop was left in its first iteration, where
    each loop variable still has the value it entered with (None when there is no such path)"""
    for ev in st.events():
        if ev[0] != 'loop' or ev[1] not in e.loops:
            continue
        for loc, (v, v0, k, _) in e.loops[ev[1]]['syms'].items():
            if k == 'free' and isinstance(v0, E):
                st = st.assume(eq(v, v0))
                if st is None:
                    return None
    return st


def clean(v):
    if isinstance(v, E):
        return clean_term(v)
    if v.k == 'agg':
        return all(clean(x) for x in v.a[2])
    if v.k == 'seq':
        return all((clean(p[1]) if p[0] != 's' else '?' not in p[1] and not loop_name(p[1])) for p in v.a)
    if v.k == 'sym':
        return '?' not in v.a[0] and not loop_name(v.a[0])
    return True


def same(st, a, b):
    """True: equal on every concretisation; False: not; None: the analysis cannot tell"""
    if a is b:
        return True
    if isinstance(a, E) and isinstance(b, E):
        a, b = simp(st, a), simp(st, b)
        if a is b:
            return True
    if not isinstance(a, E) or not isinstance(b, E):
        return False if (clean(a) and clean(b)) else None
    d = st.facts.decide(eq(a, b))
    if d is not None:
        return d if not st.lossy or d else None
    if st.lossy or not clean_term(a) or not clean_term(b):
        return None
    # not provable: different quantities
    return False


def holds(st, c):
    """condition holds on every concretisation of the state"""
    d = st.facts.decide(c)
    if d is True:
        return True
    if st.lossy or not clean_term(c):
        return None
    return False


def simp(st, t):
    """drop a truncation that the facts show to be the identity"""
    if t.k == 'cat' and len(t.a) == 1:
        w, s, o = t.a[0]
        if not isinstance(s, int) and o == 0:
            lo, hi = st.facts.range(s)
            if max(lo, s.lo) >= 0 and hi < (1 << w):
                return s
    return t


def fits(st, v, w):
    return st.facts.range(v)[1] < (1 << w)


def field_is(st, f, v, w):
    """the w-bit field term f stores exactly the value v"""
    if f is v:
        return True
    r = same(st, f, trunc(v, w))
    if r is True and not fits(st, v, w):
        return holds(st, le(v, C((1 << w) - 1)))
    if r is True:
        return True
    r2 = same(st, f, v)
    return True if r2 is True else r


def seq_same(e, st, a, b):
    """two byte sequences are identical"""
    if a is b:
        return True
    pa, pb = list(a.a), list(b.a)
    if len(pa) == len(pb):
        ok = True
        for p, q in zip(pa, pb):
            if p[0] != q[0]:
                ok = False
                break
            if p[0] == 'e':
                r = same(st, p[1], q[1])
                if r is not True:
                    ok = r
                    break
            elif p[0] == 's':
                if p[1] != q[1] or same(st, p[2], q[2]) is not True or same(st, p[3], q[3]) is not True:
                    ok = False
                    break
            elif p != q:
                ok = False
                break
        if ok is not False:
            return ok
    la, lb = e.seq_len(a), e.seq_len(b)
    if st.facts.range(la) == (0, 0) and st.facts.range(lb) == (0, 0):
        return True
    if st.lossy or not clean(a) or not clean(b):
        return None
    return False


class Short(Exception):
    """the output does not have the expected shape"""

    def __init__(self, msg, where, clean=True):
        self.msg, self.where, self.clean = msg, where, clean


class Walk:
    """cursor over emitted bytes; every part remembers the write call that produced it"""

    def __init__(self, e, st, chunks):
        self.e, self.st = e, st
        self.items = []
        for seq, where in chunks:
            for p in seq.a:
                self.items.append((p, where))
        self.i = 0
        self.rest = None       # remaining slice of a partly consumed item
        self.taken = ZERO

    def where(self):
        if self.rest is not None:
            return self.rest[1]
        if self.i < len(self.items):
            return self.items[self.i][1]
        return self.items[-1][1] if self.items else '?'

    def peek(self):
        if self.rest is not None:
            return self.rest
        while self.i < len(self.items):
            p = self.items[self.i]
            if p[0][0] != 'e' and self.st.facts.range(self.e.plen(p[0])) == (0, 0):
                self.i += 1
                continue
            return p
        return None

    def byte(self):
        p = self.peek()
        if p is None:
            raise Short('output ends early', self.where())
        part, wh = p
        if part[0] == 'e':
            if not isinstance(part[1], E):
                raise Short('a byte the analysis does not understand', wh, False)
            self._adv()
            self.taken = add(self.taken, ONE)
            return part[1]
        n = self.e.plen(part)
        lo, hi = self.st.facts.range(n)
        if lo < 1:
            raise Short('variable-length bytes where a fixed field is due', wh)
        if part[0] == 's':
            b = self.e.atom_elem(part[1], part[2])
            rest = ('s', part[1], add(part[2], ONE), sub(part[3], ONE))
        else:
            b = part[1]
            rest = ('r', part[1], sub(part[2], ONE))
        if not isinstance(b, E):
            raise Short('not a byte', wh, False)
        if lo == hi == 1:
            self._adv()
        else:
            self.rest = (rest, wh)
        self.taken = add(self.taken, ONE)
        return b

    def _adv(self):
        if self.rest is not None:
            self.rest = None
        self.i += 1

    def num(self, nbytes):
        return simp(self.st, cat_bytes([self.byte() for _ in range(nbytes)]))

    def var(self, n):
        """exactly n bytes (a term); returns the Seq"""
        out = []
        st, e = self.st, self.e
        left = n
        while True:
            if st.facts.range(left) == (0, 0):
                break
            p = self.peek()
            if p is None:
                raise Short('fewer bytes are emitted than the length field states (%s missing)' % show(left), self.where(), clean_term(left) and not st.lossy)
            part, wh = p
            m = e.plen(part)
            d = st.facts.decide(le(m, left))
            if d is True:
                out.append(part)
                self._adv()
                left = sub(left, m)
                self.taken = add(self.taken, m)
                continue
            if part[0] in ('s', 'r') and st.facts.decide(lt(left, m)) is True:
                if part[0] == 's':
                    out.append(('s', part[1], part[2], left))
                    self.rest = (('s', part[1], add(part[2], left), sub(m, left)), wh)
                else:
                    out.append(('r', part[1], left))
                    self.rest = (('r', part[1], sub(m, left)), wh)
                self.taken = add(self.taken, left)
                break
            raise Short('the emitted bytes (%s) do not match the length field (%s left)' % (show(m), show(left)), wh, clean_term(m) and clean_term(left) and not st.lossy)
        return e.seq(out)

    def end(self):
        return self.peek() is None


def callv(s, name, args, st, **kw):
    """-> [(state, value)] of the returning outcomes"""
    return [(o[1], o[2]) for o in s.call(name, args, st, **kw) if o[0] == 'ret']


def acc(s, name, val, st):
    """accessor on a value"""
    s.n += 1
    st = st.copy()
    r = s.cell(st, 'acc%d' % s.n, val)
    return callv(s, name, [r], st)


def deref(e, st, v):
    while not isinstance(v, E) and v.k == 'ref':
        v = e.rd(st, v)
    return v


def variant(e, v, st=None):
    """variant name of an enum value, None when unknown"""
    if isinstance(v, E):
        return None
    t = e.T(v.a[0] if v.k == 'agg' else v.a[1])
    if t['k'] != 'adt' or t['kind'] != 'enum':
        return None
    if v.k == 'agg':
        return t['variants'][v.a[1]]['n']
    if v.k == 'sym' and st is not None:
        d = st.facts.const(e.discr(v, st))
        if d is not None:
            for x in t['variants']:
                if x['d'] == d:
                    return x['n']
    return None


def fork_variant(e, v, st):
    """[(state, variant name, Agg value)] for every possible variant"""
    if v.k == 'agg':
        return [(st, variant(e, v), v)]
    t = e.T(v.a[1])
    res = []
    for i, x in enumerate(t['variants']):
        s2 = st.assume(eq(e.discr(v, st), C(x['d'])))
        if s2 is not None:
            res.append((s2, x['n'], e.expand(v, i)))
    return res


def contains(v, pred, seen=None, st=None, e=None, depth=0):
    """some sub-value satisfies pred"""
    if depth > 12:
        return False
    if pred(v):
        return True
    if isinstance(v, E):
        return False
    if v.k == 'agg':
        return any(contains(x, pred, seen, st, e, depth + 1) for x in v.a[2])
    if v.k == 'obj':
        return any(contains(x, pred, seen, st, e, depth + 1) for x in v.a[1])
    if v.k == 'ref' and st is not None:
        try:
            return contains(e.rd(st, v), pred, seen, st, e, depth + 1)
        except Exception:
            return False
    if v.k == 'seq':
        return any(contains(p[1], pred, seen, st, e, depth + 1) for p in v.a if p[0] == 'e')
    return False


def loc(sp):
    return sp if isinstance(sp, str) else (str(sp) if sp else '?')


def cond_clean(e, c, st, ops=None):
    """the condition of a panic is a fully understood quantity of this path"""
    if c is None:
        # an explicit panic or a library precondition: reached under the path's own conditions
        cs = list(st.facts.iv) + [d for d, _ in st.facts.ne] + list(st.facts.lit) + [x for x in ops or () if isinstance(x, E)]
        bad = [x for x in cs if isinstance(x, E) and not clean_term(x)]
        return all(cond_clean(e, x, st) for x in bad)
    if isinstance(c, E):
        if clean_term(c):
            return True
        names = {x.a[0] for x in subterms(c) if x.k in ('s', 'uf', 'elem', 'len') and x.a and isinstance(x.a[0], str)}
        if any('?' in n or n.startswith(('opaque', '~')) for n in names) or any(x.k in ('elem', 'len') and loop_name(x.a[0]) for x in subterms(c)):
            return False
        return zero_iterations(e, st) is not None
    return True
