"""Abstract values (interned, immutable)."""
from terms import E, show

_t = {}


class V:
    __slots__ = ('k', 'a', 'id')

    def __repr__(self):
        return vshow(self)


def _mk(k, a):
    key = (k, a)
    v = _t.get(key)
    if v is None:
        v = V()
        v.k, v.a, v.id = k, a, len(_t)
        _t[key] = v
    return v


def Agg(ty, var, fs):
    return _mk('agg', (ty, var, tuple(fs)))


def Seq(parts):
    return _mk('seq', tuple(parts))


def Ref(cell, path=()):
    return _mk('ref', (cell, tuple(path)))


def Sym(name, ty):
    return _mk('sym', (name, ty))


def Obj(kind, fs=(), tag=None):
    return _mk('obj', (kind, tuple(fs), tag))


def FnV(key, inst, callee_json):
    v = _mk('fn', (key, inst))
    FNS[v] = callee_json
    return v


FNS = {}
UNINIT = _mk('uninit', ())


def vshow(v, d=0, names=None):
    if isinstance(v, E):
        return show(v)
    if d > 7:
        return '…'
    if v.k == 'agg':
        return 'A%s#%s(%s)' % (v.a[0], v.a[1], ', '.join(vshow(x, d + 1) for x in v.a[2]))
    if v.k == 'seq':
        return '[' + ' '.join(pshow(p, d + 1) for p in v.a) + ']'
    if v.k == 'ref':
        return '&%s%s' % (v.a[0], ''.join('.' + pathshow(p) for p in v.a[1]))
    if v.k == 'sym':
        return '$' + v.a[0]
    if v.k == 'obj':
        return '%s%s(%s)' % (v.a[0], ':' + str(v.a[2]) if v.a[2] else '', ', '.join(vshow(x, d + 1) for x in v.a[1]))
    return v.k + str(v.a)


def pathshow(p):
    if p[0] == 'f':
        return ('@%s.' % p[1] if p[1] is not None else '') + str(p[2])
    if p[0] == 'i':
        return '[%s]' % show(p[1])
    if p[0] == 'r':
        return '[%s;%s]' % (show(p[1]), show(p[2]))
    return str(p)


def pshow(p, d=0):
    if p[0] == 'e':
        return vshow(p[1], d + 1)
    if p[0] == 's':
        return '%s<%s;%s>' % (p[1], show(p[2]), show(p[3]))
    return 'rep(%s;%s)' % (vshow(p[1], d + 1), show(p[2]))
