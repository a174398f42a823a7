"""Scenario driver: calls of the public API on symbolic arguments."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *
from values import *
from engine import Engine, State, Fork, PanicX, Budget
from models import norm

_CACHE = {}


def load():
    p = os.environ.get('MIR_JSON') or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build', 'mir.json')
    if 'd' not in _CACHE:
        _CACHE['d'] = json.load(open(p))
    return _CACHE['d']


class Missing(Exception):
    """a public anchor is gone"""


class Sc:
    def __init__(self, poll_mode=False, max_steps=None):
        self.e = Engine(load(), poll_mode)
        if max_steps:
            self.e.max_steps = max_steps
        self.M = self.e.M
        self.byname = {}
        for i in self.e.I:
            if i['local'] and i.get('root') and not i.get('promoted') and i['blocks'] and i.get('dk') in ('Fn', 'AssocFn'):
                self.byname.setdefault(nname(i), []).append(i)
        self.n = 0

    def find(self, name, **kw):
        c = self.byname.get(name)
        if c and 'self_s' in kw:
            c = [i for i in c if kw['self_s'] in (self.e.T(i['impl_self'])['s'] if i.get('impl_self') is not None else '')]
        if not c:
            raise Missing(name)
        return c[0]

    def has(self, name):
        return name in self.byname

    def ctx(self, inst, fid='top'):
        self.n += 1
        return dict(fid=self.e.fid('scen', self.n), bb=0, dty=inst['locals'][0], sp=None, fn='<scenario>', local=False, argtys=inst['locals'][1:1 + inst['args']], inst=None)

    def call(self, name, args, st, **kw):
        """run a function; async functions are polled to completion. -> outcomes"""
        inst = name if isinstance(name, dict) else self.find(name, **kw)
        e = self.e
        ctx = self.ctx(inst)
        outs = e.run_fn(inst['id'], list(args), st.copy(), e.fid('scen', self.n, inst['id']))
        if not inst.get('async'):
            return outs
        res = []
        for o in outs:
            if o[0] != 'ret':
                res.append(o)
                continue
            t = e.T(o[2].a[0])
            r = e.run_fn(t['inst'], [o[2], Sym('resume', None)], o[1], e.fid('scen', self.n, t['inst']))
            res += r
        return res

    def argty(self, name, k, **kw):
        return self.find(name, **kw)['locals'][k]

    def cell(self, st, name, v):
        c = ('scn', name)
        st.mem[c] = v
        return Ref(c)


def nname(i):
    """normalised name: impl header kept as Type::method or <Trait for Type>"""
    return norm_inst(i['name'])


def norm_inst(n):
    if n.startswith('<'):
        # <Type as Trait>::f
        d = 0
        for k, ch in enumerate(n):
            if ch == '<':
                d += 1
            elif ch == '>' and n[k - 1] != '-':
                d -= 1
                if d == 0:
                    break
        head, tail = n[1:k], n[k + 1:]
        d = 0
        for j in range(len(head)):
            if head[j] == '<':
                d += 1
            elif head[j] == '>' and head[j - 1] != '-':
                d -= 1
            elif d == 0 and head.startswith(' as ', j):
                ty, tr = head[:j], head[j + 4:]
                return norm(ty) + ' as ' + norm(tr).split('::')[-1] + ':' + tail.strip(':')
        return norm(n)
    return norm(n)


def is_ok(v):
    return not isinstance(v, E) and v.k == 'agg' and v.a[1] == 0


def is_err(v):
    return not isinstance(v, E) and v.k == 'agg' and v.a[1] == 1


# ------------------------------------------------------------------ contracts (modular analysis)
def result_parts(e, ty):
    """(ok type, err type) of a Result type"""
    t = e.T(ty)
    if t['k'] == 'adt' and t['name'].endswith('result::Result'):
        return t['variants'][0]['f'][0]['t'], t['variants'][1]['f'][0]['t']
    return None


def find_extra_parser(s):
    """local, non-async fn (bytes, ..) -> Result<Vec<ExtraField>, _>"""
    e = s.e
    res = []
    for i in e.I:
        if not (i['local'] and i['blocks'] and not i.get('promoted')) or i.get('async'):
            continue
        rp = result_parts(e, i['locals'][0])
        if not rp:
            continue
        t = e.T(rp[0])
        if not t['s'].startswith('std::vec::Vec<') or not t['s'].endswith('ExtraField>'):
            continue
        if any(e.seq_elem(a) is not None for a in i['locals'][1:1 + i['args']]):
            res.append(i)
    return res


def use_extra_parser_contract(s, n=None):
    """replace the extra-field parser by its contract: Err, or Ok of a list of fields.
    n=None: a list of unknown length; otherwise a list of exactly n unknown fields."""
    e = s.e
    for i in find_extra_parser(s):
        okty, erty = result_parts(e, i['locals'][0])
        el = e.seq_elem(okty)

        def ct(callee, args, st, ctx, i=i, okty=okty, erty=erty, el=el):
            _, src = s.M.seqof(st, args[0])
            if src is None:
                return None
            atom = 'XF%d' % src.id
            e.atom_ty[atom] = el
            st.emit('xparse', src, tuple(args[1:]), atom)
            s1, s2 = st.copy(), st
            s2.nerr += 1
            lst = Seq([('s', atom, ZERO, length(atom))]) if n is None else Seq([('e', Sym('%s.%d' % (atom, k), el)) for k in range(n)])
            return [('ret', s1, Agg(i['locals'][0], 0, (lst,))),
                    ('ret', s2, Agg(i['locals'][0], 1, (Sym('xferr:' + atom, erty),)))]
        e.contracts[i['id']] = ct
    return len(e.contracts)


def source_of(s, st, up):
    """the reader among the captured arguments of an async fn: -> (ref or None, value, size term, byte atom, setter)"""
    M, e = s.M, s.e
    for a in up:
        if isinstance(a, E):
            continue
        r, v = (None, a) if a.k in ('sym', 'obj', 'agg') else M.obj(st, a)
        k = M.kind(v) if v is not None else 'unknown'
        if k == 'base':
            name = M.base_name(v)

            def put(st2, pos, name=name):
                st2.ghost[('rpos', name)] = pos
            return name, M.fatom(name), M.flen(name), M.rpos(st, name), put
        if k == 'Cursor' and r is not None:
            d = M.cursor_data(st, v)
            if d is None or len(d.a) != 1 or d.a[0][0] != 's' or d.a[0][2] is not ZERO:
                return None

            def putc(st2, pos, r=r):
                e.wr(st2, M.fld(r, 1), pos)
            return 'cursor', d.a[0][1], e.seq_len(d), v.a[1][1], putc
    return None


def use_reader_contracts(s, which=('locator', 'record')):
    """replace, by what their own checks establish:
    locator: async fn(source) -> Result<u64>: the position after an end-record signature, anything for the source position
    record:  async fn(source, ..) -> Result<StoredZipEntry>: an entry parsed from the source position, position moved forward"""
    e = s.e
    done = []
    for i in e.I:
        if not (i['local'] and i['blocks'] and not i.get('promoted')):
            continue
        t = e.T(i['locals'][0])
        if t['k'] != 'coroutine' or t.get('inst') is None:
            continue
        body = e.I[t['inst']]
        rty = body['locals'][0]
        rp = result_parts(e, rty)
        if not rp:
            continue
        okn = e.T(rp[0])['s']
        kind = 'locator' if okn == 'u64' else 'record' if okn.endswith('StoredZipEntry') and not okn.startswith('std::') else None
        if kind not in which:
            continue
        done.append((kind, i['id']))

        def ct(up, st, ctx, kind=kind, rty=rty, rp=rp):
            src = source_of(s, st, up)
            if src is None:
                return None
            name, atom, n, pos, put = src
            st.nio += 1
            k = st.nio
            s2 = st.copy()
            er = Sym('%serr#%d' % (kind, k), rp[1])
            s2.nerr += 1
            newpos = S('%send#%d' % (kind, k), 0, 1 << 62)
            s1 = st
            if kind == 'locator':
                off = S('eocdr#%d' % k, 4, 1 << 62)
                s1 = s1.assume(le(off, n))
                sig = cat_bytes([elem(atom, add(off, C(j - 4))) for j in range(4)])
                s1 = s1 and s1.assume(eq(sig, C(0x06054b50)))
                val = off
                s1 and s1.emit('locator', name, off)
            else:
                s1 = s1.assume(le(add(pos, C(46)), n))
                s1 = s1 and s1.assume(le(add(pos, C(46)), newpos))
                s1 = s1 and s1.assume(le(newpos, n))
                val = Sym('cdr#%d' % k, rp[0])
                s1 and s1.emit('record', name, pos, val)
            res = []
            if s1:
                put(s1, newpos)
                res.append(('ret', s1, Agg(rty, 0, (val,))))
            put(s2, newpos)
            res.append(('ret', s2, Agg(rty, 1, (er,))))
            return res
        e.co_contracts[t['inst']] = ct
    return done
