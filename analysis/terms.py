"""Hash-consed value-numbering terms: linear integer forms, bit-slice concatenations, uninterpreted atoms.

A term denotes a mathematical integer (booleans are 0/1).  Normalisation is purely syntactic; two program
values are considered equal when they have the same normal form.
"""
from math import gcd

INF = 1 << 200
_tab = {}


class E:
    __slots__ = ('k', 'a', 'lo', 'hi', 'id')

    def __repr__(self):
        return show(self)


_by_id = []


def mk(k, a, lo, hi):
    key = (k, a)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.k, e.a, e.lo, e.hi, e.id = k, a, lo, hi, len(_by_id)
        _tab[key] = e
        _by_id.append(e)
    return e


def C(n):
    n = int(n)
    return mk('c', n, n, n)


ZERO, ONE = C(0), C(1)
TRUE, FALSE = ONE, ZERO


def S(name, lo=0, hi=(1 << 64) - 1):
    return mk('s', (name, lo, hi), lo, hi)


def uf(name, args=(), lo=0, hi=(1 << 64) - 1):
    return mk('uf', (name,) + tuple(args), lo, hi)


def elem(atom, idx, lo=0, hi=255):
    return mk('elem', (atom, idx), lo, hi)


MAXLEN = (1 << 63) - 1


def length(atom, hi=MAXLEN):
    return mk('len', (atom,), 0, hi)


def is_c(e):
    return e.k == 'c'


# ---- linear forms -------------------------------------------------------------------------------
def to_lin(e):
    if e.k == 'c':
        return e.a, {}
    if e.k == 'lin':
        return e.a[0], dict(e.a[1])
    return 0, {e: 1}


def from_lin(c, d):
    items = [(t, k) for t, k in d.items() if k]
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    lo = hi = c
    for t, k in items:
        if k > 0:
            lo += k * t.lo
            hi += k * t.hi
        else:
            lo += k * t.hi
            hi += k * t.lo
    return mk('lin', (c, tuple(items)), lo, hi)


def add(a, b, kb=1):
    if a.k == 'c' and b.k == 'c':
        return C(a.a + kb * b.a)
    if b.k == 'c' and b.a == 0:
        return a
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return from_lin(ca + kb * cb, da)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, b, -1)


def mulc(a, k):
    c, d = to_lin(a)
    return from_lin(c * k, {t: v * k for t, v in d.items()})


def mul(a, b):
    if a.k == 'c':
        return mulc(b, a.a)
    if b.k == 'c':
        return mulc(a, b.a)
    if a.id > b.id:
        a, b = b, a
    ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return uf('mul', (a, b), min(ps), max(ps))


def div(a, b):
    if a.k == 'c' and b.k == 'c' and b.a:
        return C(abs(a.a) // abs(b.a) * (1 if (a.a < 0) == (b.a < 0) else -1))
    if b.k == 'c' and b.a > 0 and a.lo >= 0:
        n = b.a
        if n & (n - 1) == 0:
            return shr(a, n.bit_length() - 1)
        return uf('div', (a, b), a.lo // n, a.hi // n)
    m = max(abs(a.lo), abs(a.hi))
    return uf('div', (a, b), 0 if a.lo >= 0 and b.lo >= 0 else -m, m)


def rem(a, b):
    if a.k == 'c' and b.k == 'c' and b.a:
        r = abs(a.a) % abs(b.a)
        return C(r if a.a >= 0 else -r)
    if b.k == 'c' and b.a > 0 and a.lo >= 0:
        n = b.a
        if a.hi < n:
            return a
        if n & (n - 1) == 0:
            return slc(a, 0, n.bit_length() - 1)
        return uf('rem', (a, b), 0, n - 1)
    m = max(abs(b.lo), abs(b.hi))
    return uf('rem', (a, b), 0 if a.lo >= 0 else -m, m)


# ---- bit slices ---------------------------------------------------------------------------------
# a piece is (width, src, off); src is an int constant (off 0) or a term that is not 'c'/'cat'
def _norm(pieces):
    out = []
    for w, s, o in pieces:
        if w <= 0:
            continue
        if not isinstance(s, int):
            if s.lo >= 0:
                bl = s.hi.bit_length()
                if bl <= o:
                    s, o = 0, 0
                elif bl < o + w:
                    _push(out, bl - o, s, o)
                    w -= bl - o
                    s, o = 0, 0
        _push(out, w, s, o)
    while out and out[-1][1] == 0 and isinstance(out[-1][1], int):
        out.pop()
    return out


def _push(out, w, s, o):
    if isinstance(s, int):
        s &= (1 << w) - 1
    if out:
        pw, ps, po = out[-1]
        if isinstance(s, int) and isinstance(ps, int):
            out[-1] = (pw + w, ps | (s << pw), 0)
            return
        if s is ps and not isinstance(s, int) and po + pw == o:
            out[-1] = (pw + w, ps, po)
            return
    out.append((w, s, o))


def mkcat(pieces):
    ps = _norm(pieces)
    if not ps:
        return ZERO
    if len(ps) == 1:
        w, s, o = ps[0]
        if isinstance(s, int):
            return C(s)
        if o == 0 and s.lo >= 0 and s.hi.bit_length() <= w:
            return s
    hi = 0
    sh = 0
    lo = 0
    for w, s, o in ps:
        if isinstance(s, int):
            hi |= s << sh
            lo |= s << sh
        else:
            m = (1 << w) - 1
            if s.lo >= 0 and o == 0 and s.hi <= m:
                m = s.hi
            elif s.lo >= 0:
                m = min(m, s.hi >> o)
            hi += m << sh
        sh += w
    return mk('cat', tuple(ps), lo, hi)


def pieces(e, w):
    """pieces of e truncated to w bits (two's complement)"""
    if e.k == 'c':
        return [(w, e.a & ((1 << w) - 1), 0)]
    if e.k == 'cat':
        out = []
        n = 0
        for pw, s, o in e.a:
            t = min(pw, w - n)
            if t <= 0:
                break
            out.append((t, (s & ((1 << t) - 1)) if isinstance(s, int) else s, o))
            n += t
        if n < w:
            out.append((w - n, 0, 0))
        return out
    return [(w, e, 0)]


def slc(e, off, w):
    """bits [off, off+w) of e"""
    if e.lo >= 0 and e.hi < (1 << w) and off == 0:
        return e
    ps = pieces(e, off + w)
    out = []
    n = 0
    for pw, s, o in ps:
        a, b = max(n, off), min(n + pw, off + w)
        if a < b:
            if isinstance(s, int):
                out.append((b - a, (s >> (a - n)) & ((1 << (b - a)) - 1), 0))
            else:
                out.append((b - a, s, o + (a - n)))
        n += pw
    return mkcat(out)


def trunc(e, w):
    return slc(e, 0, w)


def shl(e, n, w):
    if n >= w:
        return ZERO
    return mkcat([(n, 0, 0)] + pieces(e, w - n))


def shr(e, n, w=128):
    return slc(e, n, max(w - n, 1))


def cat_bytes(bs):
    """little-endian concatenation of byte terms"""
    out = []
    for b in bs:
        out += pieces(b, 8)
    return mkcat(out)


def _zpieces(e, w):
    """pieces with the bits known to be zero split off"""
    out = []
    for pw, s, o in pieces(e, w):
        if not isinstance(s, int) and s.lo >= 0 and s.hi.bit_length() < o + pw:
            k = max(s.hi.bit_length() - o, 0)
            if k:
                out.append((k, s, o))
            out.append((pw - k, 0, 0))
        else:
            out.append((pw, s, o))
    return out


def _zip(a, b, w):
    pa, pb = _zpieces(a, w), _zpieces(b, w)
    i = j = 0
    oa = ob = 0
    while i < len(pa) and j < len(pb):
        wa, sa, xa = pa[i]
        wb, sb, xb = pb[j]
        t = min(wa - oa, wb - ob)
        A = ((sa >> oa) & ((1 << t) - 1), 0) if isinstance(sa, int) else (sa, xa + oa)
        B = ((sb >> ob) & ((1 << t) - 1), 0) if isinstance(sb, int) else (sb, xb + ob)
        yield t, A, B
        oa += t
        ob += t
        if oa == wa:
            i += 1
            oa = 0
        if ob == wb:
            j += 1
            ob = 0


def _bitwise(name, a, b, w):
    if a.k == 'c' and b.k == 'c':
        m = (1 << w) - 1
        x, y = a.a & m, b.a & m
        return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[name])
    if a is b:
        return ZERO if name == 'xor' else a
    out = []
    for t, A, B in _zip(a, b, w):
        m = (1 << t) - 1
        ia, ib = isinstance(A[0], int), isinstance(B[0], int)
        if ia and ib:
            v = {'and': A[0] & B[0], 'or': A[0] | B[0], 'xor': A[0] ^ B[0]}[name]
            out.append((t, v, 0))
            continue
        if A == B and not ia:
            out.append((t, 0, 0) if name == 'xor' else (t, A[0], A[1]))
            continue
        if ia or ib:
            k, x = (A[0], B) if ia else (B[0], A)
            # split bit runs of the constant
            n = 0
            while n < t:
                bit = (k >> n) & 1
                r = n
                while r < t and ((k >> r) & 1) == bit:
                    r += 1
                run = r - n
                if name == 'and':
                    out.append((run, x[0], x[1] + n) if bit else (run, 0, 0))
                elif name == 'or':
                    out.append((run, (1 << run) - 1, 0) if bit else (run, x[0], x[1] + n))
                else:
                    if bit:
                        return _opaque(name, a, b, w)
                    out.append((run, x[0], x[1] + n))
                n = r
            continue
        return _opaque(name, a, b, w)
    return mkcat(out)


def _opaque(name, a, b, w):
    if a.id > b.id:
        a, b = b, a
    hi = (1 << w) - 1
    if name == 'and' and a.lo >= 0 and b.lo >= 0:
        hi = min(a.hi, b.hi)
    elif a.lo >= 0 and b.lo >= 0:
        hi = min(hi, (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)
    return uf('b' + name, (a, b), 0, hi)


def band(a, b, w):
    return _bitwise('and', a, b, w)


def bor(a, b, w):
    return _bitwise('or', a, b, w)


def bxor(a, b, w):
    return _bitwise('xor', a, b, w)


def bnot(a, w):
    if a.k == 'c':
        return C(~a.a & ((1 << w) - 1))
    if a.k == 'uf' and a.a[0] == 'bnot' and a.a[2] == w:
        return a.a[1]
    return uf('bnot', (a, w), 0, (1 << w) - 1)


# ---- booleans -----------------------------------------------------------------------------------
def _dir(L):
    """L = c + g*D with D primitive and leading coefficient positive; returns (c, g, D)"""
    c, d = to_lin(L)
    items = sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].id)
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if items[0][1] < 0:
        g = -g
    return c, g, from_lin(0, {t: k // g for t, k in items})


def le0(L):
    if L.hi <= 0:
        return TRUE
    if L.lo > 0:
        return FALSE
    return mk('le', (L,), 0, 1)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def eq(a, b):
    if a is b:
        return TRUE
    L = sub(a, b)
    if L.k == 'c':
        return TRUE if L.a == 0 else FALSE
    if L.lo > 0 or L.hi < 0:
        return FALSE
    c, g, D = _dir(L)
    if c % g:
        return FALSE
    # D == -c/g
    v = -c // g
    if D.lo == 0 and D.hi == 1:
        return D if v == 1 else not_(D)
    return mk('eq', (D, v), 0, 1)


def not_(b):
    if b.k == 'c':
        return C(1 - b.a)
    if b.k == 'not':
        return b.a[0]
    if b.k == 'le':
        return le0(sub(ONE, b.a[0]))
    return mk('not', (b,), 0, 1)


def and_(a, b):
    if a is b or is_c(b):
        return (a if b.a else FALSE) if is_c(b) else a
    if is_c(a):
        return b if a.a else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('and', (a, b), 0, 1)


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


# ---- traversal / display ------------------------------------------------------------------------
def subterms(e, seen=None):
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, E):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.k == 'lin':
                st.extend(t for t, _ in x.a[1])
            elif x.k == 'cat':
                st.extend(s for _, s, _ in x.a if not isinstance(s, int))
            elif isinstance(x.a, tuple):
                st.extend(y for y in x.a if isinstance(y, E))


def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    if d > 8:
        return '…'
    k, a = e.k, e.a
    if k == 'c':
        return str(a) if abs(a) < 100000 else hex(a)
    if k == 's':
        return a[0]
    if k == 'len':
        return 'len(%s)' % (a[0],)
    if k == 'elem':
        return '%s[%s]' % (a[0], show(a[1], d + 1))
    if k == 'lin':
        parts = []
        for t, kk in a[1]:
            parts.append(('%s' if kk == 1 else ('-%s' if kk == -1 else str(kk) + '*%s')) % show(t, d + 1))
        if a[0]:
            parts.append(str(a[0]))
        return '(' + ' + '.join(parts).replace('+ -', '- ') + ')'
    if k == 'cat':
        return 'bits{' + ','.join(
            (('0x%x' % s) if isinstance(s, int) else '%s[%d..%d]' % (show(s, d + 1), o, o + w)) + ':%d' % w
            for w, s, o in a) + '}'
    if k == 'le':
        return '%s<=0' % show(a[0], d + 1)
    if k == 'eq':
        return '%s==%s' % (show(a[0], d + 1), a[1])
    if k == 'not':
        return '!' + show(a[0], d + 1)
    if k == 'uf':
        return '%s(%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[1:]))
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in a) if isinstance(a, tuple) else a)
