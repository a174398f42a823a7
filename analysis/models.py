"""Models of library functions (std, futures-lite, async-compression, crc32fast, tokio) for the abstract interpreter."""
import re
from terms import *
from values import *
from engine import Fork, PanicX
from models_io import IoModels

U64MAX = (1 << 64) - 1


def norm(path):
    """drop generic arguments / impl headers from a def path"""
    out, depth, i = [], 0, 0
    n = len(path)
    while i < n:
        ch = path[i]
        if ch == '<':
            depth += 1
        elif ch == '>' and path[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


_nc = {}


class Models(IoModels):
    def __init__(self, eng):
        self.e = eng
        self.tab = {}
        self.impls = {}
        for i in eng.I:
            if i['local'] and i.get('impl_trait') and i.get('fn_name') and i['blocks'] and not i.get('promoted'):
                t = eng.T(i['impl_self']) if i.get('impl_self') is not None else None
                while t and t['k'] == 'ref':
                    t = eng.T(t['ty'])
                if t and t['k'] == 'adt':
                    key = (i['impl_trait'].split('<')[0].split('::')[-1], i['fn_name'], t['name'])
                    if i.get('root') or key not in self.impls:
                        self.impls[key] = i['id']
        for n in dir(self):
            f = getattr(self, n)
            for k in getattr(f, '_keys', ()):
                self.tab[k] = f

    def find(self, callee):
        p = callee['path']
        k = _nc.get(p)
        if k is None:
            k = _nc[p] = norm(p)
        f = self.tab.get(k)
        if f is not None:
            return f
        if k.endswith('::precondition_check'):
            return self.no_check
        rp = callee.get('rpath')
        if rp and rp != p:
            k = _nc.get(rp)
            if k is None:
                k = _nc[rp] = norm(rp)
            f = self.tab.get(k)
            if f is not None:
                return f
        return None

    # ------------------------------------------------------------ helpers
    def ret(self, st, v):
        return [('ret', st, v)]

    def arg0(self, ty):
        t = self.e.T(ty)
        a = t.get('args') or []
        return a[0] if a and isinstance(a[0], int) else None

    def arg1(self, ty):
        t = self.e.T(ty)
        a = t.get('args') or []
        return a[1] if len(a) > 1 and isinstance(a[1], int) else None

    def some(self, ty, v):
        return Agg(ty, 1, (v,))

    def none(self, ty):
        return Agg(ty, 0, ())

    def unit(self):
        return Agg(self.e.UNIT, 0, ())

    def seqof(self, st, v):
        """value or (nested) reference -> (ref or None, Seq) ; None when it is not a sequence"""
        e = self.e
        ref = None
        for _ in range(6):
            if isinstance(v, E):
                return None, None
            if v.k == 'seq':
                return ref, v
            if v.k == 'ref':
                ref = v
                v = e.rd(st, v)
                continue
            if v.k == 'agg' and e.adt(v.a[0]) in ('std::pin::Pin', 'std::boxed::Box') and v.a[2]:
                v = v.a[2][0]
                continue
            if v.k == 'agg' and e.adt(v.a[0]) == 'std::borrow::Cow':
                v = v.a[2][0]
                continue
            return None, None
        return None, None

    def forking(self, st, f):
        """evaluate f(st) -> outcomes, splitting the state on undecided conditions"""
        try:
            return f(st.copy())
        except Fork as x:
            out = []
            self.e.log_cond(x.cond)
            for tr in (True, False):
                s = st.assume(x.cond, tr)
                if s is not None:
                    out += self.forking(s, f)
            return out

    def bind(self, outs, f):
        res = []
        for o in outs:
            if o[0] == 'ret':
                res += self.forking(o[1], lambda s, v=o[2]: f(s, v))
            else:
                res.append(o)
        return res

    def panic(self, st, kind, ctx, **kw):
        d = dict(kind=kind, fn=ctx['fn'], sp=ctx['sp'], local=ctx['local'], fid=ctx['fid'], bb=ctx['bb'])
        d.update(kw)
        return [('panic', st, d)]

    def intty(self, ctx, callee=None):
        for t in [ctx['argtys'][0] if ctx['argtys'] else None, ctx['dty']]:
            if t is not None and self.e.T(t)['k'] == 'int':
                return t
        return None

    def no_check(self, callee, args, st, ctx):
        """debug-only checks of the standard library's own unsafe contracts"""
        return self.ret(st, Agg(ctx['dty'], 0, ()))

    def reaches_state(self, v, t=None, d=0):
        """may a call given v change memory that is being followed, or a source or sink?"""
        e = self.e
        if isinstance(v, E) or d > 6:
            return False
        if t is not None:
            tt = e.T(t)
            if tt['k'] in ('ref', 'ptr') and not tt.get('mut'):
                return False
            if tt['k'] in ('ref', 'ptr') and tt.get('ty') is not None and e.T(tt['ty'])['s'].startswith('std::task::Context'):
                return False
        if v.k == 'ref':
            return t is not None and v.a[0][0] != 'const'
        if v.k == 'obj':
            return True
        if v.k == 'agg':
            ad = e.T(v.a[0])
            fs = None
            try:
                if ad['k'] == 'adt':
                    fs = [f['t'] for f in ad['variants'][v.a[1] or 0]['f']]
                elif ad['k'] == 'tuple':
                    fs = ad['tys']
            except (KeyError, IndexError, TypeError):
                fs = None
            return any(self.reaches_state(x, fs[i] if fs is not None and i < len(fs) else None, d + 1)
                       for i, x in enumerate(v.a[2]))
        return False

    def unknown(self, callee, args, st, ctx):
        e = self.e
        path = callee.get('rpath') or callee['path']
        if ctx['dty'] is not None and e.T(ctx['dty'])['k'] == 'never':
            return self.panic(st, 'panic:' + norm(path), ctx)
        e.unknown[path] = e.unknown.get(path, 0) + 1
        ids = ','.join(str(getattr(a, 'id', a)) for a in args)
        if any(self.reaches_state(a, t) for a, t in zip(args, ctx['argtys'])):
            st.lossy = True          # an effect nothing is known about: nothing after it may be an alarm
            e.lossy_calls[path] = e.lossy_calls.get(path, 0) + 1
        for a, t in zip(args, ctx['argtys']):
            if t is None or isinstance(a, E):
                continue
            tt = e.T(t)
            v = a
            if v.k == 'agg' and e.adt(v.a[0]) == 'std::pin::Pin' and v.a[2] and not isinstance(v.a[2][0], E):
                v = v.a[2][0]
                tt = dict(k='ref', mut=True, ty=None)
            if tt['k'] in ('ref', 'ptr') and tt.get('mut') and v.k == 'ref' and v.a[0][0] != 'const':
                try:
                    old = e.rd(st, v)
                except Fork:
                    old = None
                oty = tt.get('ty')
                if old is not None and not isinstance(old, E) and old.k in ('sym', 'agg'):
                    oty = old.a[1] if old.k == 'sym' else old.a[0]
                if e.T(oty)['s'].startswith('std::task::Context') if oty is not None else False:
                    continue
                e.wr(st, v, e.mk_sym('?h:%s(%s)' % (norm(path), ids), oty))
        return self.ret(st, e.mk_sym('?%s(%s)' % (norm(path), ids), ctx['dty']))


def model(*keys):
    def d(f):
        f._keys = keys
        return f
    return d


def M(*keys):
    """register a method on Models"""
    def d(f):
        f._keys = keys
        setattr(Models, f.__name__ + '_%d' % len(vars(Models)), f)
        return f
    return d


# ---------------------------------------------------------------- Vec / String / slices
@M('std::vec::Vec::new', 'std::string::String::new')
def v_new(s, c, a, st, ctx):
    return s.ret(st, s.e.seq([]))


@M('std::vec::Vec::with_capacity', 'std::string::String::with_capacity')
def v_cap(s, c, a, st, ctx):
    st.emit('alloc', s.e.scalar(a[0]), ctx['fn'], ctx['sp'])
    return s.ret(st, s.e.seq([]))


@M('std::vec::Vec::reserve', 'std::vec::Vec::reserve_exact', 'std::string::String::reserve')
def v_reserve(s, c, a, st, ctx):
    st.emit('alloc', s.e.scalar(a[1]), ctx['fn'], ctx['sp'])
    return s.ret(st, s.unit())


@M('std::vec::from_elem')
def v_from_elem(s, c, a, st, ctx):
    n = s.e.scalar(a[1])
    st.emit('alloc', n, ctx['fn'], ctx['sp'])
    return s.ret(st, s.e.seq([('r', a[0], n)]))


@M('std::vec::Vec::push')
def v_push(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    s.e.wr(st, r, s.e.seq(list(v.a) + [('e', a[1])]))
    return s.ret(st, s.unit())


@M('std::string::String::push')
def str_push(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    ch = st.facts.const(a[1]) if isinstance(a[1], E) else None
    if v is None or ch is None:
        return None
    s.e.wr(st, r, s.e.seq(list(v.a) + [('e', C(b)) for b in chr(ch).encode()]))
    return s.ret(st, s.unit())


@M('std::vec::Vec::append')
def v_append(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    r2, v2 = s.seqof(st, a[1])
    if v is None or v2 is None:
        return None
    s.e.wr(st, r, s.e.seq(list(v.a) + list(v2.a)))
    s.e.wr(st, r2, s.e.seq([]))
    return s.ret(st, s.unit())


@M('std::vec::Vec::extend_from_slice', 'std::string::String::push_str')
def v_extend_slice(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    _, v2 = s.seqof(st, a[1])
    if v is None or v2 is None:
        return None
    s.e.wr(st, r, s.e.seq(list(v.a) + list(v2.a)))
    return s.ret(st, s.unit())


@M('std::iter::Extend::extend')
def v_extend(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    _, v2 = s.seqof(st, a[1])
    if v2 is None:
        v2 = s.iter_rest(st, a[1])
    if v2 is None:
        return None
    s.e.wr(st, r, s.e.seq(list(v.a) + list(v2.a)))
    return s.ret(st, s.unit())


@M('std::vec::Vec::len', 'std::string::String::len', 'core::slice::len', 'core::str::len')
def v_len(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    return s.ret(st, s.e.seq_len(v))


@M('std::vec::Vec::is_empty', 'std::string::String::is_empty', 'core::slice::is_empty', 'core::str::is_empty')
def v_is_empty(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    return s.ret(st, eq(s.e.seq_len(v), ZERO))


@M('std::vec::Vec::clear', 'std::string::String::clear')
def v_clear(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    s.e.wr(st, r, s.e.seq([]))
    return s.ret(st, s.unit())


@M('std::vec::Vec::truncate', 'std::string::String::truncate')
def v_trunc(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.scalar(a[1])
    if s.e.need(st, lt(n, s.e.seq_len(v))):
        l, _ = s.e.split(st, v, n)
        s.e.wr(st, r, s.e.seq(l))
    return s.ret(st, s.unit())


@M('std::vec::Vec::resize')
def v_resize(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.scalar(a[1])
    m = s.e.seq_len(v)
    st.emit('alloc', n, ctx['fn'], ctx['sp'])
    if s.e.need(st, lt(n, m)):
        l, _ = s.e.split(st, v, n)
        s.e.wr(st, r, s.e.seq(l))
    else:
        s.e.wr(st, r, s.e.seq(list(v.a) + [('r', a[2], sub(n, m))]))
    return s.ret(st, s.unit())


@M('std::vec::Vec::insert')
def v_insert(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    i = s.e.scalar(a[1])
    if s.e.need(st, lt(s.e.seq_len(v), i)):
        return s.panic(st, 'insert-bounds', ctx)
    l, x = s.e.split(st, v, i)
    s.e.wr(st, r, s.e.seq(l + [('e', a[2])] + x))
    return s.ret(st, s.unit())


@M('std::vec::Vec::pop')
def v_pop(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.seq_len(v)
    if s.e.need(st, eq(n, ZERO)):
        return s.ret(st, s.none(ctx['dty']))
    l, x = s.e.split(st, v, sub(n, ONE))
    val = s.e.seq_index(st, s.e.seq(x), ZERO)
    s.e.wr(st, r, s.e.seq(l))
    return s.ret(st, s.some(ctx['dty'], val))


@M('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def v_remove(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    i = s.e.scalar(a[1])
    if s.e.need(st, le(s.e.seq_len(v), i)):
        return s.panic(st, 'remove-bounds', ctx)
    l, x = s.e.split(st, v, i)
    val = s.e.seq_index(st, v, i)
    _, y = s.e.split(st, s.e.seq(x), ONE)
    if norm(c['path']).endswith('swap_remove') and y:
        # the last element takes the place of the removed one
        n = s.e.seq_len(s.e.seq(y))
        if st.facts.decide(eq(n, ZERO)) is not True:
            if s.e.need(st, eq(n, ZERO)):
                y = []
            else:
                m = sub(n, ONE)
                y0, last = s.e.split(st, s.e.seq(y), m)
                y = last + y0
    s.e.wr(st, r, s.e.seq(l + y))
    return s.ret(st, val)


@M('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::string::String::as_bytes', 'core::str::as_bytes',
   'std::string::String::as_str', 'core::slice::as_ref', 'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
   'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut',
   'core::array::as_slice', 'std::array::as_slice', 'core::str::as_ref', 'std::str::from_utf8_unchecked_mut',
   'core::array::as_mut_slice')
def same_ref(s, c, a, st, ctx):
    v = a[0]
    if isinstance(v, E) or v.k != 'ref':
        return None
    x = s.e.rd(st, v)
    if isinstance(x, E):
        return None
    if x.k == 'seq':
        return s.ret(st, v)
    if x.k == 'ref':
        y = s.e.rd(st, x)
        if not isinstance(y, E) and y.k == 'seq':
            return s.ret(st, x)
        n = c.get('trait') or ''
        if n.endswith('Deref') or n.endswith('DerefMut'):
            t = s.e.T(s.e.deref_ty(ctx['argtys'][0]) if ctx['argtys'][0] is not None else None)
            if t['k'] == 'adt' and t['name'] in ('std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc'):
                return s.ret(st, x)
    if x.k == 'sym':
        t = s.e.T(x.a[1])
        if t['k'] == 'adt' and t['name'] in ('std::path::PathBuf',) or (c.get('rpath') or '').startswith('<std::path::PathBuf as') or (t['k'] in ('param', 'alias') and 'AsRef' in (c.get('trait') or '')):
            return s.ret(st, v)
    return None


@M('std::string::String::into_bytes', 'std::vec::Vec::into_boxed_slice', 'core::slice::into_vec', 'std::slice::into_vec',
   'std::boxed::Box::into_vec', 'std::string::String::into_boxed_str')
def same_val(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    return s.ret(st, v)


@M('core::slice::to_vec', 'std::slice::to_vec', 'std::borrow::ToOwned::to_owned', 'std::string::ToString::to_string',
   'std::slice::into_vec', 'core::str::to_owned', 'std::str::to_owned')
def to_vec(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        if not isinstance(a[0], E) and a[0].k == 'ref':
            x = s.e.rd(st, a[0])
            if not isinstance(x, E) and x.k in ('sym', 'ref'):
                return s.ret(st, x)
        return None
    return s.ret(st, v)


@M('std::clone::Clone::clone', 'std::slice::<impl [T]>::clone')
def clone(s, c, a, st, ctx):
    if isinstance(a[0], E) or a[0].k != 'ref':
        return None
    v = s.e.rd(st, a[0])
    if isinstance(v, E) or v.k in ('seq', 'ref', 'obj', 'fn'):
        return s.ret(st, v)
    if v.k == 'sym':
        t = s.e.T(v.a[1])
        if not ('inst' in c and c.get('rlocal')):
            if t['k'] != 'adt' or not t['local']:
                if t['k'] == 'adt' and t['name'] == 'std::option::Option':
                    return s.ret(st, v)
                if 'inst' not in c or t['k'] in ('param', 'alias'):
                    return s.ret(st, v)
    if v.k == 'agg' and 'inst' not in c:
        return s.ret(st, v)
    return None


@M('core::slice::is_ascii', 'core::slice::ascii::is_ascii', 'core::str::is_ascii')
def is_ascii(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    return s.ret(st, ascii_of(st, v))


def ascii_of(st, v):
    """whether every byte of a text is ASCII; a text that is not UTF-8 is not ASCII"""
    if v.a and st.facts.decide(uf('utf8', (v,), 0, 1)) is False:
        return FALSE
    return uf('ascii', (v,), 0, 1) if v.a else TRUE


def utf8_of(s, st, v):
    """decides whether a text is UTF-8 (splitting the path); ASCII is"""
    return not v.a or st.facts.decide(uf('ascii', (v,), 0, 1)) is True or s.e.need(st, uf('utf8', (v,), 0, 1))


@M('std::str::from_utf8', 'core::str::from_utf8', 'core::str::converts::from_utf8')
def from_utf8(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    if utf8_of(s, st, v):
        return s.ret(st, Agg(ctx['dty'], 0, (r,)))
    return s.ret(st, Agg(ctx['dty'], 1, (s.e.mk_sym('utf8err', s.arg1(ctx['dty'])),)))


@M('std::string::String::from_utf8')
def string_from_utf8(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    if utf8_of(s, st, v):
        return s.ret(st, Agg(ctx['dty'], 0, (v,)))
    return s.ret(st, Agg(ctx['dty'], 1, (Obj('FromUtf8Error', (v,)),)))


@M('std::string::FromUtf8Error::into_bytes')
def fromutf8_into(s, c, a, st, ctx):
    if not isinstance(a[0], E) and a[0].k == 'obj':
        return s.ret(st, a[0].a[1][0])
    return None


@M('std::string::String::from_utf8_unchecked', 'std::str::from_utf8_unchecked', 'core::str::from_utf8_unchecked',
   'core::str::converts::from_utf8_unchecked')
def from_utf8_unchecked(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        st.emit('unchecked', a[0], st.facts, ctx['fn'], ctx['sp'])
        return None
    st.emit('unchecked', v, st.facts, ctx['fn'], ctx['sp'])
    return s.ret(st, r if s.e.T(ctx['dty'])['k'] == 'ref' and r is not None else v)


@M('std::string::String::from_utf8_lossy', 'std::string::String::from_utf8_lossy_owned')
def from_utf8_lossy(s, c, a, st, ctx):
    return None


@M('core::slice::contains', 'core::str::contains')
def contains_any(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    if not v.a:
        return s.ret(st, FALSE)
    _, w = s.seqof(st, a[1])
    if norm(c['path']).startswith('core::slice') and w is None and all(q[0] == 'e' and isinstance(q[1], E) for q in v.a) and len(v.a) <= 16:
        x = s.e.rd(st, a[1]) if not isinstance(a[1], E) and a[1].k == 'ref' else a[1]
        if isinstance(x, E):
            for q in v.a:
                if s.e.need(st, eq(q[1], x)):
                    return s.ret(st, TRUE)
            return s.ret(st, FALSE)
    pat = w if w is not None else s.deref(st, a[1]) if hasattr(s, 'deref') else a[1]
    return s.ret(st, uf('contains', (v, pat), 0, 1))


@M('core::str::ends_with', 'core::str::starts_with', 'core::slice::ends_with', 'core::slice::starts_with')
def ends_with(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    name = norm(c['path']).split('::')[-1]
    _, w = s.seqof(st, a[1])
    pat = w if w is not None else a[1]
    if isinstance(pat, E) and is_c(pat) and pat.a < 128:
        pat = s.e.seq([('e', pat)])
    if not isinstance(pat, E) and pat.k == 'seq':
        pl = s.e.flat(st, pat)
        if pl is not None:
            n = s.e.seq_len(v)
            if s.e.need(st, lt(n, C(len(pl)))):
                return s.ret(st, FALSE)
            off = ZERO if name == 'starts_with' else sub(n, C(len(pl)))
            r = TRUE
            for k, x in enumerate(pl):
                r = and_(r, eq(s.e.scalar(s.e.seq_index(st, v, add(off, C(k)))), s.e.scalar(x)))
            return s.ret(st, r)
    return s.ret(st, uf(name, (v, pat), 0, 1))


@M('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def copy_from_slice(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    _, w = s.seqof(st, a[1])
    if v is None or w is None:
        return None
    if not s.e.need(st, eq(s.e.seq_len(v), s.e.seq_len(w))):
        return s.panic(st, 'copy_from_slice-len', ctx)
    s.e.wr(st, r, w)
    return s.ret(st, s.unit())


@M('core::slice::fill')
def slice_fill(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    s.e.wr(st, r, s.e.seq([('r', a[1], s.e.seq_len(v))]))
    return s.ret(st, s.unit())


@M('core::slice::concat', 'std::slice::concat')
def slice_concat(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    fl = s.e.flat(st, v)
    if fl is None:
        return None
    out = []
    for x in fl:
        _, y = s.seqof(st, x)
        if y is None:
            return None
        out += list(y.a)
    return s.ret(st, s.e.seq(out))


def _range(s, st, idx, n):
    """index value -> ('i', E) or ('r', start, end)"""
    if isinstance(idx, E):
        return ('i', idx)
    if idx.k == 'sym':
        x = s.e.expand(idx)
        idx = x if x is not None else idx
    if idx.k != 'agg':
        return None
    name = (s.e.adt(idx.a[0]) or '').split('::')[-1]
    fs = idx.a[2]
    if name == 'Range':
        return ('r', fs[0], fs[1])
    if name == 'RangeFrom':
        return ('r', fs[0], n)
    if name == 'RangeTo':
        return ('r', ZERO, fs[0])
    if name == 'RangeFull':
        return ('r', ZERO, n)
    if name == 'RangeInclusive':
        return ('r', fs[0], add(fs[1], ONE))
    if name == 'RangeToInclusive':
        return ('r', ZERO, add(fs[0], ONE))
    return None


@M('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'std::slice::SliceIndex::index', 'std::slice::SliceIndex::index_mut')
def index(s, c, a, st, ctx):
    if 'SliceIndex' in c['path']:
        a = [a[1], a[0]]
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.seq_len(v)
    x = _range(s, st, a[1], n)
    if x is None:
        return None
    if x[0] == 'i':
        if not s.e.need(st, lt(x[1], n)):
            return s.panic(st, 'index-bounds', ctx, ops=[x[1], n])
        return s.ret(st, s.e.sub_ref(r, ('i', x[1])))
    if not s.e.need(st, le(x[1], x[2])):
        return s.panic(st, 'slice-order', ctx, ops=[x[1], x[2]])
    if not s.e.need(st, le(x[2], n)):
        return s.panic(st, 'slice-bounds', ctx, ops=[x[1], x[2], n])
    if x[1] is ZERO and x[2] is n:
        return s.ret(st, r)
    return s.ret(st, s.e.sub_ref(r, ('r', x[1], sub(x[2], x[1]))))


@M('core::slice::get', 'core::slice::get_mut', 'std::slice::SliceIndex::get', 'std::slice::SliceIndex::get_mut', 'core::str::get')
def get(s, c, a, st, ctx):
    if 'SliceIndex' in c['path']:
        a = [a[1], a[0]]
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.seq_len(v)
    x = _range(s, st, a[1], n)
    if x is None:
        return None
    if x[0] == 'i':
        if not s.e.need(st, lt(x[1], n)):
            return s.ret(st, s.none(ctx['dty']))
        return s.ret(st, s.some(ctx['dty'], s.e.sub_ref(r, ('i', x[1]))))
    if not s.e.need(st, le(x[1], x[2])) or not s.e.need(st, le(x[2], n)):
        return s.ret(st, s.none(ctx['dty']))
    return s.ret(st, s.some(ctx['dty'], s.e.sub_ref(r, ('r', x[1], sub(x[2], x[1])))))


@M('core::slice::get_unchecked', 'core::slice::get_unchecked_mut', 'core::str::get_unchecked')
def get_unchecked(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.seq_len(v)
    x = _range(s, st, a[1], n)
    if x is None:
        return None
    if x[0] == 'i':
        if not s.e.need(st, lt(x[1], n)):
            return s.panic(st, 'ub:get_unchecked-bounds', ctx, ops=[x[1], n])
        st.emit('ubok', 'get_unchecked', ctx['fn'], ctx['sp'])
        return s.ret(st, s.e.sub_ref(r, ('i', x[1])))
    if not s.e.need(st, le(x[1], x[2])) or not s.e.need(st, le(x[2], n)):
        return s.panic(st, 'ub:get_unchecked-bounds', ctx, ops=[x[1], x[2], n])
    st.emit('ubok', 'get_unchecked', ctx['fn'], ctx['sp'])
    return s.ret(st, s.e.sub_ref(r, ('r', x[1], sub(x[2], x[1]))))


@M('std::vec::Vec::set_len', 'std::string::String::set_len')
def v_set_len(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.scalar(a[1])
    m = s.e.seq_len(v)
    if s.e.need(st, le(n, m)):
        st.emit('ubok', 'set_len', ctx['fn'], ctx['sp'])
        l, _ = s.e.split(st, v, n)
        s.e.wr(st, r, s.e.seq(l))
        return s.ret(st, s.unit())
    return s.panic(st, 'ub:set_len-over-uninitialised-memory', ctx, ops=[n, m])


@M('std::hint::unreachable_unchecked', 'core::hint::unreachable_unchecked')
def unreachable_unchecked(s, c, a, st, ctx):
    return s.panic(st, 'ub:unreachable_unchecked', ctx)


@M('core::slice::first', 'core::slice::last', 'core::slice::first_mut', 'core::slice::last_mut')
def first(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.seq_len(v)
    if s.e.need(st, eq(n, ZERO)):
        return s.ret(st, s.none(ctx['dty']))
    i = ZERO if '::first' in norm(c['path']) else sub(n, ONE)
    return s.ret(st, s.some(ctx['dty'], s.e.sub_ref(r, ('i', i))))


@M('core::slice::split_at', 'core::slice::split_at_mut')
def split_at(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.seq_len(v)
    m = s.e.scalar(a[1])
    if not s.e.need(st, le(m, n)):
        return s.panic(st, 'split_at-bounds', ctx, ops=[m, n])
    return s.ret(st, Agg(ctx['dty'], 0, (s.e.sub_ref(r, ('r', ZERO, m)), s.e.sub_ref(r, ('r', m, sub(n, m))))))


@M('std::convert::TryFrom::try_from')
def try_from(s, c, a, st, ctx):
    # slice -> array
    t = s.e.T(ctx['dty'])
    if t['k'] != 'adt' or isinstance(a[0], E):
        return None
    ok = s.e.T(s.arg0(ctx['dty']))
    byref = False
    if ok['k'] == 'ref' and s.e.T(ok['ty'])['k'] == 'array':
        ok = s.e.T(ok['ty'])
        byref = True
    if ok['k'] != 'array' or not isinstance(ok.get('len'), int):
        return None
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    if s.e.need(st, eq(s.e.seq_len(v), C(ok['len']))):
        return s.ret(st, Agg(ctx['dty'], 0, (r if byref else v,)))
    return s.ret(st, Agg(ctx['dty'], 1, (s.e.mk_sym('tryfromslice', s.arg1(ctx['dty'])),)))


@M('std::convert::From::from')
def from_(s, c, a, st, ctx):
    # sequence conversions (Vec from slice/array/str, String from str, Cow, Box<[T]>, &[T] ...)
    if c.get('rlocal'):
        return None
    el = s.e.seq_elem(ctx['dty']) if ctx['dty'] is not None else None
    if el is not None:
        _, v = s.seqof(st, a[0])
        if v is not None:
            return s.ret(st, v)
    return None


@M('std::convert::Into::into')
def into_(s, c, a, st, ctx):
    if 'inst' in c:
        return None
    if isinstance(a[0], E) or a[0].k != 'sym':
        return None
    return s.ret(st, s.e.mk_sym(a[0].a[0] + '.into', ctx['dty']))


@M('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'core::slice::cmp::SlicePartialEq::equal', 'std::array::SpecArrayEq::spec_eq',
   'std::array::SpecArrayEq::spec_ne', 'core::array::equality::SpecArrayEq::spec_eq')
def peq(s, c, a, st, ctx):
    r = seq_eq(s, st, a[0], a[1])
    if r is None:
        x, y = a[0], a[1]
        for _ in range(3):
            if not isinstance(x, E) and x.k == 'ref':
                x = s.e.rd(st, x)
            if not isinstance(y, E) and y.k == 'ref':
                y = s.e.rd(st, y)
        if isinstance(x, E) and isinstance(y, E):
            r = eq(x, y)
        elif x is y and not isinstance(x, E) and x.k in ('sym',):
            r = TRUE
        else:
            return None
    nm = norm(c['path']).split('::')[-1]
    return s.ret(st, not_(r) if nm in ('ne', 'spec_ne') else r)


def seq_eq(s, st, x, y):
    _, v = s.seqof(st, x)
    _, w = s.seqof(st, y)
    if v is None or w is None:
        return None
    if v is w:
        return TRUE
    n, m = s.e.seq_len(v), s.e.seq_len(w)
    if not s.e.need(st, eq(n, m)):
        return FALSE
    a, b = s.e.flat(st, v), s.e.flat(st, w)
    if a is None and b is not None and st.facts.const(n) == len(b):
        a = s.e.flat(st, v)
    if a is None or b is None:
        # constant length known through facts?
        return uf('seqeq', tuple(sorted((v, w), key=lambda q: q.id)), 0, 1)
    if len(a) != len(b):
        return FALSE
    r = TRUE
    # compare little-endian as one number when both are bytes: keeps one literal
    if all(isinstance(q, E) for q in a + b) and len(a) <= 8:
        return eq(cat_bytes(a), cat_bytes(b)) if len(a) else TRUE
    for p, q in zip(a, b):
        r = and_(r, eq(s.e.scalar(p), s.e.scalar(q)))
    return r


# ---------------------------------------------------------------- integers
def _bytes(s, v, ty):
    return [slc(v, 8 * i, 8) for i in range(s.e.width(ty) // 8)]


@M('core::num::to_le_bytes', 'core::num::to_ne_bytes', 'core::num::to_be_bytes')
def to_bytes(s, c, a, st, ctx):
    ty = s.intty(ctx)
    if ty is None:
        return None
    v = s.e.scalar(a[0], ty)
    if v.lo < 0:
        return None
    b = _bytes(s, v, ty)
    if c['path'].endswith('to_be_bytes'):
        b.reverse()
    return s.ret(st, s.e.seq([('e', x) for x in b]))


@M('core::num::from_le_bytes', 'core::num::from_ne_bytes', 'core::num::from_be_bytes')
def from_bytes(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    b = s.e.flat(st, v)
    if b is None:
        return None
    b = [s.e.scalar(x, s.e.U8) for x in b]
    if c['path'].endswith('from_be_bytes'):
        b.reverse()
    return s.ret(st, s.e.wrap(st, cat_bytes(b), ctx['dty']))


def _arith(s, c, a, st):
    op = norm(c['path']).split('::')[-1].split('_')[-1]
    x, y = s.e.scalar(a[0]), s.e.scalar(a[1])
    return add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)


@M('core::num::checked_add', 'core::num::checked_sub', 'core::num::checked_mul')
def checked(s, c, a, st, ctx):
    ty = s.intty(ctx)
    lo, hi = s.e.int_range(ty)
    r = _arith(s, c, a, st)
    if not s.e.fits(st, r, lo, hi):
        if r.hi > hi and s.e.need(st, lt(C(hi), r)):
            return s.ret(st, s.none(ctx['dty']))
        if r.lo < lo and s.e.need(st, lt(r, C(lo))):
            return s.ret(st, s.none(ctx['dty']))
    return s.ret(st, s.some(ctx['dty'], r))


@M('core::num::saturating_add', 'core::num::saturating_sub', 'core::num::saturating_mul')
def saturating(s, c, a, st, ctx):
    ty = s.intty(ctx)
    lo, hi = s.e.int_range(ty)
    r = _arith(s, c, a, st)
    if not s.e.fits(st, r, lo, hi):
        if r.hi > hi and s.e.need(st, lt(C(hi), r)):
            return s.ret(st, C(hi))
        if r.lo < lo and s.e.need(st, lt(r, C(lo))):
            return s.ret(st, C(lo))
    return s.ret(st, r)


@M('core::num::wrapping_add', 'core::num::wrapping_sub', 'core::num::wrapping_mul', 'core::num::unchecked_add',
   'core::num::unchecked_sub')
def wrapping(s, c, a, st, ctx):
    ty = s.intty(ctx)
    return s.ret(st, s.e.wrap(st, _arith(s, c, a, st), ty))


@M('std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max')
def minmax(s, c, a, st, ctx):
    if not (isinstance(a[0], E) and isinstance(a[1], E)):
        return None
    mn = norm(c['path']).endswith('min')
    if s.e.need(st, le(a[0], a[1])):
        return s.ret(st, a[0] if mn else a[1])
    return s.ret(st, a[1] if mn else a[0])


@M('std::intrinsics::discriminant_value', 'core::intrinsics::discriminant_value')
def discrv(s, c, a, st, ctx):
    v = s.e.rd(st, a[0])
    if isinstance(v, E):
        return s.ret(st, v)
    return s.ret(st, s.e.discr(v, st))


@M('std::mem::discriminant')
def discr_of(s, c, a, st, ctx):
    v = s.e.rd(st, a[0])
    return s.ret(st, Agg(ctx['dty'], 0, (s.e.discr(v, st) if not isinstance(v, E) else v,)))


# ---------------------------------------------------------------- mem / boxes / misc
@M('std::mem::replace', 'core::mem::replace')
def mem_replace(s, c, a, st, ctx):
    v = s.e.rd(st, a[0])
    s.e.wr(st, a[0], a[1])
    return s.ret(st, v)


@M('std::mem::swap')
def mem_swap(s, c, a, st, ctx):
    v, w = s.e.rd(st, a[0]), s.e.rd(st, a[1])
    s.e.wr(st, a[0], w)
    s.e.wr(st, a[1], v)
    return s.ret(st, s.unit())


@M('std::mem::take')
def mem_take(s, c, a, st, ctx):
    v = s.e.rd(st, a[0])
    if isinstance(v, E):
        s.e.wr(st, a[0], ZERO)
        return s.ret(st, v)
    ty = ctx['dty']
    name = s.e.adt(ty) or ''
    if v.k == 'seq':
        s.e.wr(st, a[0], s.e.seq([]))
    elif name == 'crc32fast::Hasher':
        v = s.hasher(v)
        s.e.wr(st, a[0], Obj('Hasher', (s.e.seq([]),)))
    elif name == 'std::option::Option':
        s.e.wr(st, a[0], s.none(ty))
    else:
        return None
    return s.ret(st, v)


@M('std::option::Option::take')
def opt_take(s, c, a, st, ctx):
    v = s.e.rd(st, a[0])
    s.e.wr(st, a[0], s.none(ctx['dty']))
    return s.ret(st, v)


@M('std::mem::drop', 'std::mem::forget')
def mem_drop(s, c, a, st, ctx):
    return s.ret(st, s.unit())


@M('std::sync::Arc::new', 'std::boxed::Box::new', 'std::rc::Rc::new', 'std::boxed::box_new', 'std::boxed::Box::pin')
def arc_new(s, c, a, st, ctx):
    cell = ('heap', s.e.fid('heap', ctx['fid'], ctx['bb']))
    st.mem[cell] = a[0]
    st.emit('box', norm(c['path']), cell)
    r = Ref(cell)
    if norm(c['path']).endswith('pin'):
        return s.ret(st, Agg(ctx['dty'], 0, (r,)))
    return s.ret(st, r)


@M('std::future::get_context')
def get_ctx(s, c, a, st, ctx):
    return s.ret(st, Ref(('sym', 'cx', None)))


@M('std::hint::black_box')
def ident(s, c, a, st, ctx):
    return s.ret(st, a[0])


@M('std::iter::IntoIterator::into_iter')
def into_iter(s, c, a, st, ctx):
    v = a[0]
    if isinstance(v, E):
        return None
    if v.k == 'obj':
        return s.ret(st, v)
    if v.k == 'seq':
        return s.ret(st, Obj('into', (v, ZERO, s.e.seq_len(v))))
    if v.k == 'ref':
        x = s.e.rd(st, v)
        if not isinstance(x, E) and x.k == 'seq':
            return s.ret(st, Obj('iter', (v, ZERO, s.e.seq_len(x))))
        if not isinstance(x, E) and x.k == 'obj':
            return s.ret(st, v)
    return None


@M('core::slice::iter', 'core::slice::iter_mut')
def slice_iter(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    return s.ret(st, Obj('iter', (r, ZERO, s.e.seq_len(v))))


@M('core::slice::chunks', 'core::slice::chunks_exact', 'core::slice::windows')
def slice_chunks(s, c, a, st, ctx):
    r, v = s.seqof(st, a[0])
    if v is None:
        return None
    n = s.e.scalar(a[1])
    if s.e.need(st, eq(n, ZERO)):
        return s.panic(st, 'chunk-size-zero', ctx)
    L = s.e.seq_len(v)
    k = norm(c['path']).split('::')[-1]
    if k == 'windows':
        end = ZERO if s.e.need(st, lt(L, n)) else add(sub(L, n), ONE)
        return s.ret(st, Obj('windows', (r, ZERO, end, n)))
    return s.ret(st, Obj(k, (r, ZERO, L, n)))


def _iter_item(s, st, v, i):
    if v.a[0] == 'iter':
        return s.e.sub_ref(v.a[1][0], ('i', i))
    if v.a[0] == 'windows':
        return s.e.sub_ref(v.a[1][0], ('r', i, v.a[1][3]))
    return s.e.seq_index(st, v.a[1][0], i)


@M('std::iter::Iterator::next')
def it_next(s, c, a, st, ctx):
    ref = a[0]
    v = s.e.rd(st, ref)
    if isinstance(v, E):
        return None
    if v.k == 'ref':
        ref = v
        v = s.e.rd(st, v)
        if isinstance(v, E):
            return None
    if v.k == 'obj' and v.a[0] in ('iter', 'into', 'windows'):
        i, n = v.a[1][1], v.a[1][2]
        if not s.e.need(st, lt(i, n)):
            return s.ret(st, s.none(ctx['dty']))
        it = _iter_item(s, st, v, i)
        s.e.wr(st, ref, Obj(v.a[0], (v.a[1][0], add(i, ONE)) + v.a[1][2:], v.a[2]))
        return s.ret(st, s.some(ctx['dty'], it))
    if v.k == 'obj' and v.a[0] in ('chunks', 'chunks_exact'):
        r, i, n, k = v.a[1]
        if not s.e.need(st, lt(i, n)):
            return s.ret(st, s.none(ctx['dty']))
        if s.e.need(st, le(add(i, k), n)):
            m = k
        elif v.a[0] == 'chunks_exact':
            return s.ret(st, s.none(ctx['dty']))
        else:
            m = sub(n, i)
        s.e.wr(st, ref, Obj(v.a[0], (r, add(i, m), n, k), v.a[2]))
        return s.ret(st, s.some(ctx['dty'], s.e.sub_ref(r, ('r', i, m))))
    if v.k in ('agg', 'sym'):
        name = s.e.adt(v.a[0] if v.k == 'agg' else v.a[1])
        if name in ('std::ops::Range', 'core::ops::Range'):
            if v.k == 'sym':
                v = s.e.expand(v)
            i, n = v.a[2]
            if isinstance(i, E) and isinstance(n, E):
                if not s.e.need(st, lt(i, n)):
                    return s.ret(st, s.none(ctx['dty']))
                s.e.wr(st, ref, Agg(v.a[0], v.a[1], (add(i, ONE), n)))
                return s.ret(st, s.some(ctx['dty'], i))
    return None


@M('std::iter::DoubleEndedIterator::next_back')
def it_next_back(s, c, a, st, ctx):
    ref = a[0]
    v = s.e.rd(st, ref)
    if isinstance(v, E):
        return None
    if v.k == 'obj' and v.a[0] in ('iter', 'into', 'windows'):
        i, n = v.a[1][1], v.a[1][2]
        if not s.e.need(st, lt(i, n)):
            return s.ret(st, s.none(ctx['dty']))
        j = sub(n, ONE)
        it = _iter_item(s, st, v, j)
        s.e.wr(st, ref, Obj(v.a[0], (v.a[1][0], i, j) + v.a[1][3:], v.a[2]))
        return s.ret(st, s.some(ctx['dty'], it))
    if v.k == 'agg' and s.e.adt(v.a[0]) in ('std::ops::Range', 'core::ops::Range'):
        i, n = v.a[2]
        if isinstance(i, E) and isinstance(n, E):
            if not s.e.need(st, lt(i, n)):
                return s.ret(st, s.none(ctx['dty']))
            j = sub(n, ONE)
            s.e.wr(st, ref, Agg(v.a[0], v.a[1], (i, j)))
            return s.ret(st, s.some(ctx['dty'], j))
    return None


@M('std::iter::ExactSizeIterator::len')
def it_len(s, c, a, st, ctx):
    v = s.e.rd(st, a[0]) if not isinstance(a[0], E) and a[0].k == 'ref' else a[0]
    if not isinstance(v, E) and v.k == 'obj' and v.a[0] in ('iter', 'into', 'windows'):
        return s.ret(st, sub(v.a[1][2], v.a[1][1]))
    return v_len(s, c, a, st, ctx)


@M('std::iter::Iterator::zip')
def it_zip(s, c, a, st, ctx):
    def norm_it(x):
        if not isinstance(x, E) and x.k == 'seq':
            return Obj('into', (x, ZERO, s.e.seq_len(x)))
        if not isinstance(x, E) and x.k == 'ref':
            y = s.e.rd(st, x)
            if not isinstance(y, E) and y.k == 'seq':
                return Obj('iter', (x, ZERO, s.e.seq_len(y)))
        return x
    return s.ret(st, Agg(ctx['dty'], 0, (norm_it(a[0]), norm_it(a[1]), ZERO, ZERO)))


def byte_test(s, pred, by_ref, st, ctx):
    """a predicate over bytes that accepts exactly the ASCII ones (True) or exactly the others (False)"""
    b = S('i:quant', 0, 255)
    out = set()
    for c, asc in ((le(b, C(127)), True), (lt(C(127), b), False)):
        s1 = st.assume(c)
        if s1 is None:
            return None
        s1 = s1.copy()
        arg = b
        if by_ref:
            cell = ('tmp', ('quant', ctx['fid'], ctx['bb']))
            s1.mem[cell] = b
            arg = Ref(cell)
        n = len(s1.events())
        for o in s.e.call_fnlike(pred, Agg(None, 0, (arg,)), s1, ctx):
            if o[0] != 'ret' or not isinstance(o[2], E) or len(o[1].events()) != n:
                return None
            val = bool(o[2].a) if is_c(o[2]) else o[1].facts.decide(o[2])
            if val is None:
                return None
            out.add(val is asc)
    return out.pop() if len(out) == 1 else None


def quantifier(s, a, st, ctx, every):
    """bytes.iter().all(p) / .any(p) where p singles out the ASCII bytes"""
    ref = a[0]
    v = s.e.rd(st, ref) if not isinstance(ref, E) and ref.k == 'ref' else ref
    if isinstance(v, E) or v.k != 'obj' or v.a[0] not in ('iter', 'into'):
        return None
    by_ref = v.a[0] == 'iter'
    q = s.seqof(st, v.a[1][0])[1] if by_ref else v.a[1][0]
    if q is None or isinstance(q, E) or q.k != 'seq' or any(p[0] not in ('s',) or s.e.atom_ty.get(p[1]) != s.e.U8 for p in q.a):
        return None
    test = byte_test(s, a[1], by_ref, st.copy(), ctx)
    if test is None or test is not every:
        return None
    q = s.e.seq_slice(st, q, v.a[1][1], sub(v.a[1][2], v.a[1][1]))
    if q is None or isinstance(q, E):
        return None
    asc = ascii_of(st, q)
    return s.ret(st, asc if every else not_(asc))


@M('std::iter::Iterator::all', 'core::slice::Iter::all', 'std::slice::Iter::all', 'core::slice::iter::Iter::all')
def it_all(s, c, a, st, ctx):
    return quantifier(s, a, st, ctx, True)


@M('std::iter::Iterator::any', 'core::slice::Iter::any', 'std::slice::Iter::any', 'core::slice::iter::Iter::any')
def it_any(s, c, a, st, ctx):
    return quantifier(s, a, st, ctx, False)


@M('std::iter::Iterator::copied', 'std::iter::Iterator::cloned')
def it_copied(s, c, a, st, ctx):
    v = a[0]
    if not isinstance(v, E) and v.k == 'obj' and v.a[0] == 'iter':
        _, seq = s.seqof(st, v.a[1][0])
        if seq is not None:
            return s.ret(st, Obj('into', (seq, v.a[1][1], v.a[1][2])))
    return None


@M('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def it_collect(s, c, a, st, ctx):
    if s.e.seq_elem(ctx['dty']) is None:
        return None
    v = s.iter_rest(st, a[0])
    if v is not None:
        return s.ret(st, v)
    outs = filtered(s, st, a[0], ctx)
    if outs is None:
        return None
    return [o for s1, kept in outs for o in s.ret(s1, s.e.seq(kept))]


def filtered(s, st, v, ctx):
    """the items of list.into_iter().filter(p) or list.iter().filter(p).cloned()"""
    def parts(x, name):
        return x.a[2] if not isinstance(x, E) and x.k == 'agg' and (s.e.adt(x.a[0]) or '').split('::')[-1] == name else None
    by_ref = False
    for outer in ('Cloned', 'Copied'):
        f = parts(v, outer)
        if f and len(f) == 1:
            v, by_ref = f[0], True
    f = parts(v, 'Filter')
    if not f or len(f) != 2 or isinstance(f[0], E) or f[0].k != 'obj':
        return None
    kind = f[0].a[0]
    if kind != ('iter' if by_ref else 'into'):
        return None
    src = f[0].a[1][0]
    q = s.seqof(st, src)[1] if by_ref else src
    if q is None:
        return None
    q = s.e.seq_slice(st, q, f[0].a[1][1], sub(f[0].a[1][2], f[0].a[1][1]))
    return kept_items(s, q, f[1], st, ctx, 1 if by_ref else 0) if q is not None and not isinstance(q, E) else None


def iter_rest(s, st, v):
    if isinstance(v, E):
        return None
    if v.k == 'seq':
        return v
    if v.k == 'obj' and v.a[0] == 'into':
        return s.e.seq_slice(st, v.a[1][0], v.a[1][1], sub(v.a[1][2], v.a[1][1]))
    if v.k == 'obj' and v.a[0] == 'iter':
        _, q = s.seqof(st, v.a[1][0])
        if q is not None and all(p[0] != 'e' or isinstance(p[1], E) for p in q.a):
            return s.e.seq_slice(st, q, v.a[1][1], sub(v.a[1][2], v.a[1][1]))
    return None


Models.iter_rest = iter_rest


# ---------------------------------------------------------------- crc32
def hasher(s, v):
    if not isinstance(v, E) and v.k == 'obj' and v.a[0] == 'Hasher':
        return v
    nm = v.a[0] if not isinstance(v, E) and v.k == 'sym' else '?hasher'
    at = nm + '#fed'
    s.e.atom_ty[at] = s.e.U8
    return Obj('Hasher', (s.e.seq([('s', at, ZERO, length(at))]),))


Models.hasher = hasher


def crc(v):
    return uf('crc', (v,), 0, (1 << 32) - 1)


@M('crc32fast::Hasher::new', 'crc32fast::Hasher::default')
def h_new(s, c, a, st, ctx):
    return s.ret(st, Obj('Hasher', (s.e.seq([]),)))


@M('std::default::Default::default')
def default(s, c, a, st, ctx):
    if s.e.adt(ctx['dty']) == 'crc32fast::Hasher':
        return s.ret(st, Obj('Hasher', (s.e.seq([]),)))
    if s.e.seq_elem(ctx['dty']) is not None and s.e.T(ctx['dty'])['k'] == 'adt':
        return s.ret(st, s.e.seq([]))
    return None


@M('crc32fast::Hasher::update')
def h_update(s, c, a, st, ctx):
    h = s.hasher(s.e.rd(st, a[0]))
    _, v = s.seqof(st, a[1])
    if v is None:
        return None
    s.e.wr(st, a[0], Obj('Hasher', (s.e.seq(list(h.a[1][0].a) + list(v.a)),)))
    return s.ret(st, s.unit())


@M('crc32fast::Hasher::reset')
def h_reset(s, c, a, st, ctx):
    s.e.wr(st, a[0], Obj('Hasher', (s.e.seq([]),)))
    return s.ret(st, s.unit())


@M('crc32fast::Hasher::finalize')
def h_fin(s, c, a, st, ctx):
    return s.ret(st, crc(s.hasher(a[0]).a[1][0]))


@M('crc32fast::hash')
def h_hash(s, c, a, st, ctx):
    _, v = s.seqof(st, a[0])
    if v is None:
        return None
    return s.ret(st, crc(v))


# ---------------------------------------------------------------- extra-field list homomorphism
def list_fn(s, inst):
    """('bytes'|'count') for a local fn taking a list of ExtraField and returning Vec<u8>/usize; the homomorphism
    it is replaced by is itself verified by the C28/C08 lemma obligations"""
    e = s.e
    i = e.I[inst]
    if not i['local'] or i['args'] != 1 or i.get('promoted') or i.get('dk') == 'Closure':
        return None
    t = e.T(i['locals'][1])
    d = 0
    while t['k'] == 'ref':
        t = e.T(t['ty'])
        d += 1
    if d == 0:
        return None
    el = None
    if t['k'] == 'slice':
        el = t['ty']
    elif t['k'] == 'adt' and t['name'] == 'std::vec::Vec':
        el = t['args'][0]
    if el is None or not (e.adt(el) or '').endswith('::ExtraField'):
        return None
    r = e.T(i['locals'][0])
    if r['s'] == 'std::vec::Vec<u8>':
        return 'bytes'
    if r['k'] == 'int' and r['s'] == 'usize':
        return 'count'
    return None


Models.list_fn = list_fn


def elem_fns(s):
    """per-element local functions fn(&ExtraField) -> Vec<u8> / usize"""
    e = s.e
    if hasattr(s, '_elem_fns'):
        return s._elem_fns
    r = {}
    for i in e.I:
        if not i['local'] or not i.get('root') or i['args'] != 1 or not i['blocks'] or i.get('promoted') or i.get('dk') == 'Closure':
            continue
        t = e.T(i['locals'][1])
        if t['k'] != 'ref' or not (e.adt(t['ty']) or '').endswith('::ExtraField'):
            continue
        o = e.T(i['locals'][0])['s']
        if o == 'std::vec::Vec<u8>':
            r.setdefault('bytes', i['id'])
        elif o == 'usize':
            r.setdefault('count', i['id'])
    s._elem_fns = r
    return r


Models.elem_fns = elem_fns


def list_model(s, kind, c, a, st, ctx):
    e = s.e
    _, v = s.seqof(st, a[0])
    fns = s.elem_fns()
    if v is None or kind not in fns:
        return None
    accs = [(st, e.seq([]) if kind == 'bytes' else ZERO)]
    done = []
    for k, p in enumerate(v.a):
        if p[0] == 'r':
            return None
        nxt = []
        for s1, acc in accs:
            if p[0] == 's' or (p[0] == 'e' and not isinstance(p[1], E) and p[1].k == 'sym'):
                nm = 'ASB:%s:%s:%s' % (p[1], p[2].id, p[3].id) if p[0] == 's' else 'ASB:' + p[1].a[0]
                e.atom_ty[nm] = e.U8
                s.asb = getattr(s, 'asb', {})
                s.asb[nm] = p
                L = length(nm)
                nxt.append((s1, e.seq(list(acc.a) + [('s', nm, ZERO, L)]) if kind == 'bytes' else add(acc, L)))
                continue
            cell = ('heap', e.fid('listel', ctx['fid'], ctx['bb'], k))
            s1.mem[cell] = p[1]
            outs = e.run_fn(fns[kind], [Ref(cell)], s1, e.fid(ctx['fid'], ctx['bb'], 'lf', k, fns[kind]))
            if outs is None:
                return None
            for o in outs:
                if o[0] != 'ret':
                    done.append(o)
                    continue
                s2, x = o[1], o[2]
                if kind == 'bytes':
                    if isinstance(x, E) or x.k != 'seq':
                        return None
                    nxt.append((s2, e.seq(list(acc.a) + list(x.a))))
                else:
                    if not isinstance(x, E):
                        return None
                    nxt.append((s2, add(acc, x)))
        accs = nxt
    return done + [('ret', s1, acc) for s1, acc in accs]


Models.list_model = list_model


def kept_items(s, v, pred, st, ctx, wrap=0):
    """the items of a list a predicate accepts: [(state, parts)] or None; the predicate is given `wrap` further levels of reference"""
    e = s.e
    items = []
    for p in v.a:
        if p[0] == 'e':
            items.append((p, p[1]))
            continue
        n = st.facts.const(e.plen(p))
        if n is not None and n <= 4:
            for k in range(n):
                x = e.seq_index(st, e.seq([p]), C(k))
                items.append((('e', x), x))
        elif p[0] == 's':
            items.append((p, None))
        else:
            return None
    outs = [(st, [])]
    for k, (p, x) in enumerate(items):
        nxt = []
        for s1, kept in outs:
            cell = ('tmp', ('retain', ctx['fid'], ctx['bb'], k))
            s1.mem[cell] = x if x is not None else e.atom_elem(p[1], add(p[2], S('i:retain', 0, 1 << 60)))
            arg = Ref(cell)
            for w in range(wrap):
                up = ('tmp', ('retain', ctx['fid'], ctx['bb'], k, w))
                s1.mem[up] = arg
                arg = Ref(up)
            got = e.call_fnlike(pred, Agg(None, 0, (arg,)), s1, ctx)
            verdicts = set()
            for o in got:
                if o[0] != 'ret' or not isinstance(o[2], E):
                    return None
                val = o[1].facts.decide(o[2]) if not is_c(o[2]) else bool(o[2].a)
                if val is None:
                    if x is None:
                        return None
                    for tr in (True, False):
                        s2 = o[1].assume(o[2], tr)
                        if s2 is not None:
                            nxt.append((s2, kept + [p] if tr else kept))
                else:
                    verdicts.add(val)
                    nxt.append((o[1], kept + [p] if val else kept))
            if x is None and len(verdicts) != 1:
                return None
        outs = nxt
    return outs


@M('std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def vec_retain(s, c, a, st, ctx):
    """element by element; a run of unknown elements is kept or dropped as a whole when the predicate is the same for all of them"""
    e = s.e
    r, v = s.seqof(st, a[0])
    if v is None or r is None:
        return None
    outs = kept_items(s, v, a[1], st, ctx)
    if outs is None:
        return None
    res = []
    for s1, kept in outs:
        e.wr(s1, r, e.seq(kept))
        res += s.ret(s1, s.unit())
    return res
