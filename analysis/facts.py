"""Path facts: an interval + linear-inequality abstract domain (no solver; bounded one/two-step combination)."""
from terms import *
from terms import _dir


class Facts:
    __slots__ = ('iv', 'ne', 'lit')

    def __init__(self, iv=None, ne=None, lit=None):
        self.iv = iv if iv is not None else {}      # primitive direction -> (lo, hi)
        self.ne = ne if ne is not None else frozenset()   # (direction, value)
        self.lit = lit if lit is not None else {}   # opaque boolean -> bool

    def copy(self):
        return Facts(dict(self.iv), self.ne, dict(self.lit))

    # -- ranges
    def arange(self, t):
        """range of an atom"""
        r = self.iv.get(t)
        lo, hi = t.lo, t.hi
        if r:
            lo, hi = max(lo, r[0]), min(hi, r[1])
        if t.k == 'cat' and lo != hi:
            l = h = sh = 0
            for w, s, o in t.a:
                if isinstance(s, int):
                    l += s << sh
                    h += s << sh
                else:
                    m = (1 << w) - 1
                    p = mk_piece(w, s, o)
                    a, b = (0, m)
                    if p is not t:
                        a, b = self.arange(p) if p.k != 'lin' else self.range(p)
                        a, b = max(a, 0), min(b, m)
                    l += a << sh
                    h += b << sh
                sh += w
            lo, hi = max(lo, l), min(hi, h)
        elif t.k == 'phi':
            rs = [self.range(x, 0) for x in t.a[1:] if isinstance(x, E)]
            if rs:
                lo, hi = max(lo, min(r[0] for r in rs)), min(hi, max(r[1] for r in rs))
        return lo, hi

    def _irange(self, c, d):
        lo = hi = c
        for t, k in d.items():
            if not k:
                continue
            a, b = self.arange(t)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def range(self, e, depth=2):
        if e.k == 'c':
            return e.a, e.a
        if e.k != 'lin':
            lo, hi = self.arange(e)
            if depth and e.k != 'cat':
                lo, hi = self._combine(0, {e: 1}, lo, hi, depth)
            return lo, hi
        c, d = to_lin(e)
        lo, hi = self._irange(c, d)
        return self._combine(c, d, lo, hi, depth)

    def _combine(self, c, d, lo, hi, depth):
        if depth <= 0:
            return lo, hi
        for D, (dl, dh) in self.iv.items():
            if D.k != 'lin':
                continue
            items = D.a[1]
            tried = set()
            for t, k in items:
                if t in d and d[t] and d[t] % k == 0:
                    al = d[t] // k
                    if al in tried:
                        continue
                    tried.add(al)
                    r = dict(d)
                    for t2, k2 in items:
                        v = r.get(t2, 0) - al * k2
                        if v:
                            r[t2] = v
                        else:
                            r.pop(t2, None)
                    if len(r) > 6:
                        continue
                    rl, rh = self._irange(c, r)
                    if depth > 1 and r and len(r) <= 4:
                        rl, rh = self._combine(c, r, rl, rh, depth - 1)
                    if al > 0:
                        lo, hi = max(lo, rl + al * dl), min(hi, rh + al * dh)
                    else:
                        lo, hi = max(lo, rl + al * dh), min(hi, rh + al * dl)
        return lo, hi

    def const(self, e):
        lo, hi = self.range(e)
        return lo if lo == hi else None

    # -- decisions
    def decide(self, b):
        """True / False / None"""
        if b.k == 'c':
            return bool(b.a)
        if b.k == 'not':
            r = self.decide(b.a[0])
            return None if r is None else not r
        if b.k == 'le':
            lo, hi = self.range(b.a[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
            # L <= 0 where L == 1 boundary excluded by 'ne'
            if hi == 1 or lo == 0:
                c, g, D = _dir(b.a[0])
                if hi == 1 and (1 - c) % g == 0 and (D, (1 - c) // g) in self.ne:
                    return True
                if lo == 0 and (-c) % g == 0 and (D, -c // g) in self.ne:
                    return False
            return None
        if b.k == 'eq':
            D, v = b.a
            if (D, v) in self.ne:
                return False
            lo, hi = self.range(D)
            if lo == hi == v:
                return True
            if v < lo or v > hi:
                return False
            if D.k == 'cat':
                sh = 0
                for w, s, o in D.a:
                    bits = (v >> sh) & ((1 << w) - 1)
                    if isinstance(s, int):
                        if bits != s:
                            return False
                    else:
                        p = mk_piece(w, s, o)
                        if p is not D and self.decide(eq(p, C(bits))) is False:
                            return False
                    sh += w
                if v >> sh:
                    return False
            return None
        if b.k == 'and':
            x, y = self.decide(b.a[0]), self.decide(b.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if b in self.lit:
            return self.lit[b]
        lo, hi = self.range(b)
        if lo == hi:
            return bool(lo)
        return None

    # -- assumptions (functional)
    def assume(self, b, truth=True):
        """new Facts, or None when contradictory"""
        r = self.decide(b)
        if r is not None:
            return self if r == truth else None
        f = self.copy()
        return f if f._add(b, truth) else None

    def _add(self, b, truth):
        if b.k == 'c':
            return bool(b.a) == truth
        if b.k == 'not':
            return self._add(b.a[0], not truth)
        if b.k == 'le':
            L = b.a[0]
            if not truth:
                L = sub(ONE, L)
            return self._le(L)
        if b.k == 'eq':
            D, v = b.a
            if truth:
                if not self._setiv(D, v, v):
                    return False
                if D.k == 'cat':
                    sh = 0
                    for w, s, o in D.a:
                        if not isinstance(s, int):
                            p = mk_piece(w, s, o)
                            if p is not D:
                                bits = (v >> sh) & ((1 << w) - 1)
                                if p.k != 'c' and not self._setiv(*_norm_iv(p, bits, bits)):
                                    return False
                        sh += w
                elif D.k == 'lin':
                    self._tight(sub(D, C(v)))
                    self._tight(sub(C(v), D))
                return True
            self.ne = self.ne | {(D, v)}
            lo, hi = self.range(D, 1)
            if lo == v:
                return self._setiv(D, v + 1, INF)
            if hi == v:
                return self._setiv(D, -INF, v - 1)
            return True
        if b.k == 'and':
            if truth:
                return self._add(b.a[0], True) and self._add(b.a[1], True)
            x, y = self.decide(b.a[0]), self.decide(b.a[1])
            if x:
                return self._add(b.a[1], False)
            if y:
                return self._add(b.a[0], False)
            self.lit[b] = False
            return True
        if b.lo == 0 and b.hi == 1 and b.k in ('s', 'elem', 'uf', 'cat', 'discr', 'phi'):
            return self._setiv(b, int(truth), int(truth))
        self.lit[b] = truth
        return True

    def _setiv(self, D, lo, hi):
        ol, oh = self.iv.get(D, (D.lo, D.hi))
        ol, oh = max(ol, D.lo), min(oh, D.hi)
        lo, hi = max(lo, ol), min(hi, oh)
        while (D, lo) in self.ne and lo <= hi:
            lo += 1
        while (D, hi) in self.ne and lo <= hi:
            hi -= 1
        if lo > hi:
            return False
        self.iv[D] = (lo, hi)
        if D.k == 'cat' and len(D.a) == 1 and lo == hi and not isinstance(D.a[0][1], int):
            pass
        return True

    def _le(self, L):
        """assume L <= 0"""
        lo, hi = self.range(L)
        if lo > 0:
            return False
        c, g, D = _dir(L)
        # c + g*D <= 0
        if g > 0:
            ok = self._setiv(D, -INF, (-c) // g)
        else:
            # D >= c / -g
            ok = self._setiv(D, -((-c) // (-g)) if c % (-g) == 0 else -(-c // (-g)), INF)
        if not ok:
            return False
        return self._tight(L)

    def _tight(self, L):
        """bounds propagation of L <= 0 to its atoms"""
        c, d = to_lin(L)
        if len(d) < 2:
            return True
        for t, k in list(d.items()):
            rest = {x: y for x, y in d.items() if x is not t}
            rl, _ = self._irange(c, rest)
            # k*t <= -rl
            if k > 0:
                if not self._setiv(t, -INF, (-rl) // k):
                    return False
            else:
                v = rl // (-k) if rl % (-k) == 0 else rl // (-k) + 1
                if not self._setiv(t, v, INF):
                    return False
        return True

    def key(self):
        return (frozenset(self.iv.items()), self.ne, frozenset(self.lit.items()))

    def implies(self, o):
        """every constraint of o holds in self"""
        if not (o.ne <= self.ne):
            for x in o.ne - self.ne:
                if self.decide(eq(x[0], C(x[1]))) is not False:
                    return False
        for k, v in o.lit.items():
            if self.lit.get(k) != v:
                return False
        for D, (a, b) in o.iv.items():
            if self.iv.get(D) == (a, b):
                continue
            lo, hi = self.range(D, 1)
            if lo < a or hi > b:
                return False
        return True

    def exact_union(self, o):
        """Facts equivalent to the disjunction of self and o, or None when no exact representation is found"""
        if self.iv == o.iv and self.ne == o.ne and self.lit == o.lit:
            return self
        if self.implies(o):
            return o
        if o.implies(self):
            return self
        # differ in a single direction with adjoining intervals
        if self.lit == o.lit:
            ds = [D for D in set(self.iv) | set(o.iv) if self.iv.get(D) != o.iv.get(D)]
            dn = self.ne ^ o.ne
            if len(ds) == 1:
                D = ds[0]
                if D.k != 'lin' and all(x[0] is D for x in dn):
                    a, b = self.iv.get(D, (D.lo, D.hi)), o.iv.get(D, (D.lo, D.hi))
                    if a[0] > b[0]:
                        a, b = b, a
                    if b[0] <= a[1] + 1:
                        iv = dict(self.iv)
                        lo, hi = a[0], max(a[1], b[1])
                        if lo <= D.lo and hi >= D.hi:
                            iv.pop(D, None)
                        else:
                            iv[D] = (lo, hi)
                        return Facts(iv, self.ne & o.ne, dict(self.lit))
            if not ds and len(dn) == 1:
                x = next(iter(dn))
                r = self.iv.get(x[0])
                if r is None or r[0] <= x[1] <= r[1]:
                    return self if x not in self.ne else o
        elif self.iv == o.iv and self.ne == o.ne:
            dl = [k for k in set(self.lit) | set(o.lit) if self.lit.get(k) != o.lit.get(k)]
            if len(dl) == 1:
                return Facts(dict(self.iv), self.ne, {k: v for k, v in self.lit.items() if k not in dl})
        return None

    def join(self, o):
        iv = {}
        for D, (a, b) in self.iv.items():
            r = o.iv.get(D)
            if r is None:
                r = o.range(D, 1)
            lo, hi = min(a, r[0]), max(b, r[1])
            if lo > D.lo or hi < D.hi:
                iv[D] = (lo, hi)
        ne = frozenset(x for x in self.ne if x in o.ne or o.decide(eq(x[0], C(x[1]))) is False)
        lit = {k: v for k, v in self.lit.items() if o.lit.get(k) == v}
        return Facts(iv, ne, lit)


def mk_piece(w, s, o):
    return mkcat([(w, s, o)])


def _norm_iv(p, lo, hi):
    if p.k == 'lin':
        c, g, D = _dir(p)
        if g == 1:
            return D, lo - c, hi - c
        if g == -1:
            return D, c - hi, c - lo
        return D, -INF, INF
    return p, lo, hi
