"""Replacing a symbol by a term it is known to equal, throughout a state."""
from terms import *
from terms import from_lin
from values import Agg, Seq, Ref, Obj
from facts import Facts


def equal_term(facts, v, avoid):
    """a term free of the symbols `avoid` that the facts say v equals, or None"""
    r = facts.iv.get(v)
    if r is not None and r[0] == r[1]:
        return C(r[0])
    for D, (lo, hi) in facts.iv.items():
        if lo != hi or D.k != 'lin':
            continue
        c, d = to_lin(D)
        k = d.get(v)
        if k not in (1, -1):
            continue
        rest = {t: x for t, x in d.items() if t is not v}
        t = mulc(from_lin(c - lo, rest), -k)
        if not any(x in avoid for x in subterms(t)):
            return t
    return None


class Subst:
    def __init__(self, e, sym, term):
        self.e, self.sym, self.t, self.memo = e, sym, term, {}

    def __call__(self, x):
        r = self.memo.get(x)
        if r is None:
            r = self.term(x) if isinstance(x, E) else self.value(x)
            self.memo[x] = r
        return r

    def any(self, x):
        if isinstance(x, E) or hasattr(x, 'k') and hasattr(x, 'a'):
            return self(x)
        if isinstance(x, tuple):
            y = tuple(self.any(i) for i in x)
            return x if all(a is b for a, b in zip(x, y)) else y
        if isinstance(x, Facts):
            f = self.facts(x)
            return x if f is None else f
        return x

    def term(self, x):
        if x is self.sym:
            return self.t
        if x.k in ('c', 's', 'len'):
            return x
        if x.k == 'lin':
            c, d = to_lin(x)
            out, ch = C(c), False
            for t, k in d.items():
                u = self(t)
                ch |= u is not t
                out = add(out, u, k)
            return out if ch else x
        if x.k == 'cat':
            ps, ch = [], False
            for w, s, o in x.a:
                if isinstance(s, int):
                    ps.append((w, s, o))
                    continue
                u = self(s)
                ch |= u is not s
                ps += pieces(slc(u, o, w), w)
            return mkcat(ps) if ch else x
        if x.k == 'le':
            u = self(x.a[0])
            return x if u is x.a[0] else le0(u)
        if x.k == 'eq':
            u = self(x.a[0])
            return x if u is x.a[0] else eq(u, C(x.a[1]))
        if x.k == 'not':
            u = self(x.a[0])
            return x if u is x.a[0] else not_(u)
        if x.k == 'and':
            u, v = self(x.a[0]), self(x.a[1])
            return x if u is x.a[0] and v is x.a[1] else and_(u, v)
        if isinstance(x.a, tuple):
            a = tuple(self.any(i) for i in x.a)
            if any(p is not q for p, q in zip(a, x.a)):
                return mk(x.k, a, x.lo, x.hi)
        return x

    def value(self, v):
        if v.k == 'agg':
            fs = tuple(self(x) for x in v.a[2])
            return v if all(a is b for a, b in zip(fs, v.a[2])) else Agg(v.a[0], v.a[1], fs)
        if v.k == 'obj':
            fs = tuple(self.any(x) for x in v.a[1])
            tag = self.any(v.a[2])
            return v if tag is v.a[2] and all(a is b for a, b in zip(fs, v.a[1])) else Obj(v.a[0], fs, tag)
        if v.k == 'seq':
            ps = tuple(self.any(p) for p in v.a)
            return v if all(a is b for a, b in zip(ps, v.a)) else self.e.seq(list(ps))
        if v.k == 'ref':
            path = tuple(self.any(p) for p in v.a[1])
            return v if all(a is b for a, b in zip(path, v.a[1])) else Ref(v.a[0], path)
        return v

    def facts(self, f):
        """what the facts say with the symbol replaced; None when contradictory"""
        extra = []
        for D, (lo, hi) in f.iv.items():
            u = self(D)
            if u is not D:
                if lo > -(1 << 190):
                    extra.append(le(C(lo), u))
                if hi < 1 << 190:
                    extra.append(le(u, C(hi)))
        for D, v in f.ne:
            u = self(D)
            if u is not D:
                extra.append(not_(eq(u, C(v))))
        for b, tr in f.lit.items():
            u = self(b)
            if u is not b:
                extra.append(u if tr else not_(u))
        for c in extra:
            f = f.assume(c)
            if f is None:
                return None
        return f

    def state(self, st, since):
        """the state with the symbol replaced (events from `since` on); None when contradictory"""
        f = self.facts(st.facts)
        if f is None:
            return None
        s = st.copy()
        s.facts = f
        for cell, v in st.mem.items():
            u = self(v)
            if u is not v:
                s.mem[cell] = u
        for k, v in st.ghost.items():
            u = self.any(v)
            if u is not v:
                s.ghost[k] = u
        evs = st.events(since)
        new = [self.any(ev) for ev in evs]
        if any(a is not b for a, b in zip(evs, new)):
            s.ev = since
            for ev in new:
                s.ev = (s.ev, ev)
        return s
