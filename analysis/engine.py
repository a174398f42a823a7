"""Abstract interpreter over the dumped MIR: disjunctive states, joins at merge points, widening at loops."""
import heapq, json, sys
from terms import *
from facts import Facts
from values import *
from subst import Subst, equal_term

sys.setrecursionlimit(20000)


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PanicX(Exception):
    def __init__(self, info):
        self.info = info


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'ev', 'ghost', 'nerr', 'nio', 'lossy')

    def __init__(self):
        self.mem, self.facts, self.ev, self.ghost, self.nerr, self.nio = {}, Facts(), None, {}, 0, 0
        self.lossy = False

    def copy(self):
        s = State.__new__(State)
        s.mem, s.facts, s.ev, s.ghost, s.nerr, s.nio = dict(self.mem), self.facts, self.ev, dict(self.ghost), self.nerr, self.nio
        s.lossy = self.lossy
        return s

    def assume(self, cond, truth=True):
        f = self.facts.assume(cond, truth)
        if f is None:
            return None
        s = self.copy()
        s.facts = f
        return s

    def emit(self, *ev):
        self.ev = (self.ev, ev)

    def events(self, since=None):
        out = []
        e = self.ev
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


class Fn:
    """per-instance control-flow information"""

    def __init__(self, inst):
        self.i = inst
        self.blocks = inst['blocks']
        n = len(self.blocks)
        self.succ = [self._succ(b) if b else [] for b in self.blocks]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen and self.blocks[s] is not None:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: k for k, b in enumerate(order)}
        self.order = order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                if s in preds:
                    preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in self.rpo and self._dom(s, b):
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(preds[x])
        self.loops = loops
        self._liveness()

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def _dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @staticmethod
    def _succ(b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[5]]
        if k == 'yield':
            return [t[2]]
        return []

    def _liveness(self):
        """live-in locals per block; locals whose address is taken are always live"""
        borrowed = set()
        use, defs = {}, {}

        def pl_use(p, u, d, isdef=False):
            if isdef and len(p) == 1:
                if p[0] not in u:
                    d.add(p[0])
            else:
                if p[0] not in d:
                    u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == 'i' and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ('cp', 'mv'):
                pl_use(o[1], u, d)

        for b in self.order:
            u, d = set(), set()
            blk = self.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'ref':
                        if '*' not in r[2]:
                            borrowed.add(r[2][0])
                        pl_use(r[2], u, d)
                    elif k in ('discr',):
                        pl_use(r[1], u, d)
                    elif k == 'agg':
                        for o in r[3]:
                            op_use(o, u, d)
                    else:
                        for o in r[1:]:
                            if isinstance(o, list) and o and o[0] in ('cp', 'mv', 'c'):
                                op_use(o, u, d)
                            elif isinstance(o, list) and o and isinstance(o[0], int):
                                pl_use(o, u, d)
                    pl_use(s[1], u, d, True)
                elif s[0] == 'setd':
                    pl_use(s[1], u, d)
                elif s[0] == 'assume':
                    op_use(s[1], u, d)
            t = blk['t']
            if t[0] == 'switch':
                op_use(t[1], u, d)
            elif t[0] == 'call':
                op_use(t[1], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                pl_use(t[3], u, d, True)
            elif t[0] == 'assert':
                op_use(t[1], u, d)
                for o in t[4]:
                    op_use(o, u, d)
            elif t[0] == 'ret':
                u.add(0)
            elif t[0] == 'yield':
                op_use(t[1], u, d)
            use[b], defs[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live.get(s, set())
                n = use[b] | (o - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        nl = len(self.i['locals'])
        self.dead = {b: [l for l in range(1, nl) if l not in live[b] and l not in borrowed] for b in self.order}


class Engine:
    def __init__(self, dump, poll_mode=False):
        self.I, self.TY = dump['instances'], dump['types']
        self.fns = {}
        self.fids = {}
        self.poll_mode = poll_mode
        self.lemma = False
        self.widen_memo = {}
        self.lossy_calls = {}
        self._rfid = {}
        self.unroll_backs = 6
        self.iter_cap = None
        self.contracts = {}
        self.co_contracts = {}
        self.max_disj = 64
        self.njoins = 0
        self.unroll_both = 5
        self.atom_variant = {}      # list atom -> enum variant all its elements have
        self.atom_ty = {}
        self.loop_atoms = {}
        self.loops = {}
        self.nloop = 0
        self.depth = 0
        self.steps = 0
        self.max_steps = 6_000_000
        self.panics = []
        self.visited = set()
        self.unknown = {}
        self.calls = {}
        self.cond_log = None
        self.widen_known = set()
        self.symread = {}
        self.by_s = {}
        for i, t in enumerate(self.TY):
            self.by_s.setdefault(t['s'], i)
        self.U8 = self.by_s.get('u8')
        self.USIZE = self.by_s.get('usize')
        self.BOOL = self.by_s.get('bool')
        self.UNIT = self.by_s.get('()')
        import models
        self.M = models.Models(self)

    # ---------------------------------------------------------------- types
    def T(self, ty):
        return self.TY[ty] if ty is not None else {'k': 'other', 's': '?'}

    def adt(self, ty):
        t = self.T(ty)
        return t['name'] if t['k'] == 'adt' else None

    def seq_elem(self, ty):
        t = self.T(ty)
        k = t['k']
        if k in ('array', 'slice'):
            return t['ty']
        if k == 'str':
            return self.U8
        if k == 'adt':
            if t['name'] == 'std::vec::Vec':
                return t['args'][0]
            if t['name'] in ('std::string::String',):
                return self.U8
        return None

    def deref_ty(self, ty):
        t = self.T(ty)
        if t['k'] in ('ref', 'ptr'):
            return t['ty']
        if t['k'] == 'adt' and t['name'] in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::ptr::NonNull'):
            return t['args'][0]
        return None

    def int_range(self, ty):
        t = self.T(ty)
        if t['k'] == 'bool':
            return 0, 1
        if t['k'] == 'char':
            return 0, 0x10FFFF
        if t['k'] == 'int':
            b = t['bits'] or 64
            if t['signed']:
                return -(1 << (b - 1)), (1 << (b - 1)) - 1
            return 0, (1 << b) - 1
        return None

    def width(self, ty):
        t = self.T(ty)
        if t['k'] == 'bool':
            return 1
        if t['k'] == 'char':
            return 32
        return t.get('bits') or 64

    def field_ty(self, ty, var, i):
        t = self.T(ty)
        k = t['k']
        try:
            if k == 'adt':
                return t['variants'][var or 0]['f'][i]['t']
            if k == 'tuple':
                return t['tys'][i]
            if k in ('closure', 'coroutine'):
                return t['upvars'][i]
        except (IndexError, TypeError):
            pass
        return None

    # ---------------------------------------------------------------- symbolic values
    def mk_sym(self, name, ty):
        if ty is None:
            return Sym(name, None)
        r = self.int_range(ty)
        if r:
            return S(name, *r)
        t = self.T(ty)
        k = t['k']
        el = self.seq_elem(ty)
        if el is not None:
            self.atom_ty[name] = el
            if k == 'array' and isinstance(t.get('len'), int):
                return self.seq([('s', name, ZERO, C(t['len']))])
            return self.seq([('s', name, ZERO, length(name))])
        d = self.deref_ty(ty)
        if d is not None:
            return Ref(('sym', name + '*', d))
        if k == 'tuple' and not t['tys']:
            return Agg(ty, 0, ())
        if k == 'adt' and t['kind'] == 'struct' and not t['variants'][0]['f']:
            return Agg(ty, 0, ())
        if k == 'fndef':
            return self.fnv(t['callee'])
        return Sym(name, ty)

    def fnv(self, callee):
        key = json.dumps([callee.get('rpath', callee['path']), callee.get('rargs', callee['args'])])
        return FnV(key, callee.get('inst'), callee)

    def sym_field(self, v, var, i, ty):
        name, sty = v.a
        t = self.T(sty)
        if t['k'] == 'adt' and t['variants']:
            vi = t['variants'][var or 0]
            fn = vi['f'][i]['n'] if i < len(vi['f']) else str(i)
            if ty is None and i < len(vi['f']):
                ty = vi['f'][i]['t']
            nm = '%s@%s.%s' % (name, vi['n'], fn) if t['kind'] == 'enum' else '%s.%s' % (name, fn)
        else:
            if ty is None:
                ty = self.field_ty(sty, var, i)
            nm = '%s.%s' % (name, i) if var is None else '%s@%s.%s' % (name, var, i)
        return self.mk_sym(nm, ty)

    def expand(self, v, var=None):
        """Sym -> Agg"""
        name, ty = v.a
        t = self.T(ty)
        if t['k'] == 'adt':
            n = len(t['variants'][var or 0]['f'])
        elif t['k'] == 'tuple':
            n = len(t['tys'])
        elif t['k'] in ('closure', 'coroutine'):
            n = len(t['upvars'])
        else:
            return None
        return Agg(ty, var or 0, [self.sym_field(v, var, i, None) for i in range(n)])

    def discr(self, v, st=None):
        if v.k == 'agg':
            t = self.T(v.a[0])
            if t['k'] == 'adt':
                return C(t['variants'][v.a[1]]['d'])
            return C(v.a[1])
        if v.k == 'sym':
            t = self.T(v.a[1])
            if t['k'] == 'adt' and t['variants']:
                ds = [x['d'] for x in t['variants']]
                if len(ds) == 1:
                    return C(ds[0])
                return mk('discr', (v.a[0],), min(ds), max(ds))
            return mk('discr', (v.a[0],), 0, 1 << 16)
        return uf('discrof', (v,), 0, 1 << 16)

    # ---------------------------------------------------------------- decisions
    def need(self, st, cond):
        r = st.facts.decide(cond)
        if r is None:
            raise Fork(cond)
        return r

    # ---------------------------------------------------------------- sequences
    def seq(self, parts):
        out = []
        for p in parts:
            if p[0] == 's':
                if p[3] is ZERO:
                    continue
                if out and out[-1][0] == 's' and out[-1][1] == p[1] and add(out[-1][2], out[-1][3]) is p[2]:
                    out[-1] = ('s', p[1], out[-1][2], add(out[-1][3], p[3]))
                    continue
            elif p[0] == 'r':
                if p[2] is ZERO:
                    continue
                if out and out[-1][0] == 'r' and out[-1][1] is p[1]:
                    out[-1] = ('r', p[1], add(out[-1][2], p[2]))
                    continue
            out.append(p)
        return Seq(out)

    def plen(self, p):
        return ONE if p[0] == 'e' else (p[3] if p[0] == 's' else p[2])

    def seq_len(self, v):
        n = ZERO
        k = 0
        for p in v.a:
            if p[0] == 'e':
                k += 1
            else:
                n = add(n, self.plen(p))
        return add(n, C(k))

    def atom_elem(self, atom, idx):
        ty = self.atom_ty.get(atom)
        r = self.int_range(ty) if ty is not None else (0, 255)
        if r:
            return elem(atom, idx, *r)
        v = self.mk_sym('%s[%d]' % (atom, idx.a) if idx.k == 'c' else '%s[#%d]' % (atom, idx.id), ty)
        var = self.atom_variant.get(atom)
        if var is not None and not isinstance(v, E) and v.k == 'sym':
            return self.expand(v, var)
        return v

    def split(self, st, v, pos):
        """split sequence v at pos -> (left parts, right parts)"""
        if pos is ZERO:
            return [], list(v.a)
        cum = ZERO
        parts = list(v.a)
        for k, p in enumerate(parts):
            if pos is cum:
                return parts[:k], parts[k:]
            nxt = add(cum, self.plen(p))
            if pos is nxt:
                return parts[:k + 1], parts[k + 1:]
            if self.need(st, lt(pos, nxt)):
                # inside p
                off = sub(pos, cum)
                if p[0] == 'e':
                    return parts[:k], parts[k:]
                if p[0] == 's':
                    return (parts[:k] + [('s', p[1], p[2], off)],
                            [('s', p[1], add(p[2], off), sub(p[3], off))] + parts[k + 1:])
                return parts[:k] + [('r', p[1], off)], [('r', p[1], sub(p[2], off))] + parts[k + 1:]
            cum = nxt
        return parts, []

    def seq_index(self, st, v, idx):
        cum = ZERO
        n = len(v.a)
        ic = st.facts.const(idx) if idx.k != 'c' else idx.a
        if ic is not None:
            idx = C(ic)
            # fast path over explicit elements
            k = 0
            for p in v.a:
                if p[0] == 'e':
                    if k == ic:
                        return p[1]
                    k += 1
                else:
                    break
        for k, p in enumerate(v.a):
            nxt = add(cum, self.plen(p))
            if k == n - 1 or self.need(st, lt(idx, nxt)):
                off = sub(idx, cum)
                if p[0] == 'e':
                    return p[1]
                if p[0] == 's':
                    return self.atom_elem(p[1], add(p[2], off))
                return p[1]
            cum = nxt
        return Sym('?oob', None)

    def seq_slice(self, st, v, start, n):
        _, r = self.split(st, v, start)
        rv = self.seq(r)
        if n is self.seq_len(rv):
            return rv
        l, _ = self.split(st, rv, n)
        return self.seq(l)

    # ---------------------------------------------------------------- memory
    def cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == 'sym':
                return self.mk_sym(cell[1], cell[2])
            if cell[0] == 'const':
                return cell[1]
            return UNINIT
        return v

    def proj(self, st, v, p):
        if p[0] == 'f':
            _, var, i, ty = p
            if isinstance(v, E):
                return v
            if v.k == 'agg':
                fs = v.a[2]
                if i < len(fs) and (var is None or var == v.a[1]):
                    return fs[i]
                return self.mk_sym('?variant', ty)
            if v.k == 'sym':
                return self.sym_field(v, var, i, ty)
            if v.k == 'obj':
                if ty is not None:      # library code looking into a modelled object: its layout is not the model's
                    return self.mk_sym('?%s.%d' % (v.a[0], i), ty)
                return v.a[1][i] if i < len(v.a[1]) else self.mk_sym('?%s.%d' % (v.a[0], i), ty)
            if v.k == 'ref' and self.T(ty)['k'] in ('ref', 'ptr', 'adt'):
                return v        # Box/NonNull/Unique internals
            return self.mk_sym('?field%d' % (v.id if not isinstance(v, E) else 0), ty)
        if isinstance(v, E) or v.k != 'seq':
            if not isinstance(v, E) and v.k == 'sym':
                return Sym('%s[?]' % v.a[0], None)
            return Sym('?idx', None)
        if p[0] == 'i':
            return self.seq_index(st, v, p[1])
        return self.seq_slice(st, v, p[1], p[2])

    def load(self, st, cell, path):
        v = self.cell(st, cell)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def update(self, st, v, path, k, val):
        if k == len(path):
            return val
        p = path[k]
        if p[0] == 'f':
            _, var, i, ty = p
            if not isinstance(v, E) and v.k == 'sym':
                x = self.expand(v, var)
                if x is None:
                    return Sym('?upd', v.a[1])
                v = x
            if isinstance(v, E):
                return self.update(st, v, path, k + 1, val)
            if v.k == 'uninit':
                v = Agg(None, var or 0, [UNINIT] * (i + 1))
            if v.k == 'agg':
                fs = list(v.a[2])
                while len(fs) <= i:
                    fs.append(UNINIT)
                fs[i] = self.update(st, fs[i], path, k + 1, val)
                return Agg(v.a[0], v.a[1], fs)
            if v.k == 'obj':
                fs = list(v.a[1])
                while len(fs) <= i:
                    fs.append(UNINIT)
                fs[i] = self.update(st, fs[i], path, k + 1, val)
                return Obj(v.a[0], fs, v.a[2])
            return val
        if isinstance(v, E) or v.k != 'seq':
            return Sym('?updseq', None)
        if p[0] == 'i':
            l, r = self.split(st, v, p[1])
            if k + 1 < len(path):
                old = self.seq_index(st, v, p[1])
                val = self.update(st, old, path, k + 1, val)
            _, r2 = self.split(st, self.seq(r), ONE)
            return self.seq(l + [('e', val)] + r2)
        # range
        l, r = self.split(st, v, p[1])
        m, r2 = self.split(st, self.seq(r), p[2])
        if k + 1 < len(path):
            val = self.update(st, self.seq(m), path, k + 1, val)
        if isinstance(val, E) or val.k != 'seq':
            return Sym('?updrng', None)
        return self.seq(l + list(val.a) + r2)

    def store(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self.update(st, self.cell(st, cell), path, 0, val)

    def deref(self, st, v):
        """Ref / pointer-like value -> (cell, path)"""
        for _ in range(4):
            if isinstance(v, E):
                break
            if v.k == 'ref':
                return v.a
            if v.k == 'agg' and len(v.a[2]) >= 1:   # Pin, Box, NonNull wrappers
                v = v.a[2][0]
                continue
            if v.k == 'sym':
                return ('sym', v.a[0] + '*', self.deref_ty(v.a[1])), ()
            break
        return ('sym', '?deref', None), ()

    def rd(self, st, ref):
        c, p = self.deref(st, ref)
        return self.load(st, c, p)

    def wr(self, st, ref, val):
        c, p = self.deref(st, ref)
        self.store(st, c, p, val)

    def sub_ref(self, ref, *elems):
        c, p = ref.a
        p = list(p)
        for e in elems:
            self._ext(p, e)
        return Ref(c, p)

    @staticmethod
    def _ext(path, e):
        if path and path[-1][0] == 'r':
            if e[0] == 'i':
                path[-1] = ('i', add(path[-1][1], e[1]))
                return
            if e[0] == 'r':
                path[-1] = ('r', add(path[-1][1], e[1]), e[2])
                return
        path.append(e)

    def resolve(self, st, fid, place):
        cell, path, var = (fid, place[0]), [], None
        for e in place[1:]:
            if e == '*':
                v = self.load(st, cell, path)
                cell, path = self.deref(st, v)
                path = list(path)
            elif e == 'nop':
                pass
            elif e[0] == 'f':
                path.append(('f', var, e[1], e[2]))
                var = None
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'i':
                self._ext(path, ('i', self.cell(st, (fid, e[1]))))
            elif e[0] == 'ci':
                if e[3]:
                    n = self.seq_len(self.load(st, cell, path))
                    self._ext(path, ('i', sub(n, C(e[1]))))
                else:
                    self._ext(path, ('i', C(e[1])))
            elif e[0] == 'ss':
                n = self.seq_len(self.load(st, cell, path))
                to = sub(n, C(e[2])) if e[3] else C(e[2])
                self._ext(path, ('r', C(e[1]), sub(to, C(e[1]))))
        return cell, tuple(path)

    def place_ty(self, inst, place):
        ty = inst['locals'][place[0]]
        for e in place[1:]:
            if e == '*':
                ty = self.deref_ty(ty)
            elif e == 'nop' or e[0] == 'd':
                pass
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.seq_elem(ty) if ty is not None else None
            if ty is None and e == '*':
                return None
        return ty

    # ---------------------------------------------------------------- operands
    def cval(self, v, ty):
        k = v['k']
        ty = v.get('ty', ty)
        if k == 'int':
            x = int(v['v'])
            r = self.int_range(ty)
            if r and r[0] < 0 and x > r[1]:
                x -= 1 << self.width(ty)
            return C(x)
        if k == 'agg':
            t = self.T(ty)
            if t['k'] == 'array':
                return self.seq([('e', self.cval(x, t['ty'])) for x in v['f']])
            el = self.seq_elem(ty)
            if el is not None:
                return self.seq([]) if t['k'] == 'adt' else self.mk_sym('?constseq', ty)
            return Agg(ty, v['variant'] or 0,
                       [self.cval(x, self.field_ty(ty, v['variant'], i)) for i, x in enumerate(v['f'])])
        if k == 'array':
            el = self.seq_elem(ty)
            return self.seq([('e', self.cval(x, el)) for x in v['f']])
        if k == 'str':
            s = v['v'].encode() if isinstance(v['v'], str) else bytes(v['v'])
            return Ref(('const', self.seq([('e', C(b)) for b in s])))
        if k == 'slice':
            d = self.deref_ty(ty)
            el = self.seq_elem(d) if d is not None else self.U8
            return Ref(('const', self.seq([('e', self.cval(x, el)) for x in v['f']])))
        if k == 'refto':
            return Ref(('const', self.cval(v['v'], self.deref_ty(ty))))
        if k == 'zst':
            return self.mk_sym('zst', ty)
        return None

    def operand(self, st, fid, o, inst):
        if o[0] in ('cp', 'mv'):
            p = o[1]
            if len(p) == 1:
                v = st.mem.get((fid, p[0]))
                return v if v is not None else UNINIT
            return self.load(st, *self.resolve(st, fid, p))
        if o[0] == 'c':
            c = o[1]
            if 'fn' in c:
                return self.fnv(c['fn'])
            if 'promoted' in c:
                return self.promoted(c['promoted'])
            v = self.cval(c['v'], c['ty']) if 'v' in c else None
            if v is None:
                v = self.mk_sym('?const:%s' % (c.get('path') or self.T(c['ty'])['s']), c['ty'])
            return v
        return Sym('?rc', None)

    def promoted(self, inst):
        key = ('promoted', inst)
        v = self.fns.get(key)
        if v is None:
            st = State()
            fid = self.fid(('promoted', inst), 0)
            outs = self.run_fn(inst, [], st, fid, keep=True)
            v = None
            for o in outs:
                if o[0] == 'ret':
                    v = self._constify(o[1], o[2])
            if v is None:
                v = Sym('?promoted', None)
            self.fns[key] = v
        return v

    def _constify(self, st, v):
        if isinstance(v, E):
            return v
        if v.k == 'ref':
            c, p = v.a
            if c[0] in ('sym', 'const'):
                return v
            return Ref(('const', self._constify(st, self.load(st, c, p))))
        if v.k == 'agg':
            return Agg(v.a[0], v.a[1], [self._constify(st, x) for x in v.a[2]])
        if v.k == 'seq':
            return self.seq([('e', self._constify(st, p[1])) if p[0] == 'e' else p for p in v.a])
        return v

    def op_ty(self, inst, o):
        if o[0] in ('cp', 'mv'):
            return self.place_ty(inst, o[1])
        if o[0] == 'c':
            return o[1]['ty']
        return None

    def scalar(self, v, ty=None):
        """coerce to a term"""
        if isinstance(v, E):
            return v
        r = self.int_range(ty) if ty is not None else None
        if v.k == 'agg' and len(v.a[2]) == 1:
            return self.scalar(v.a[2][0], ty)
        return mk('uf', ('?scalar', v), *(r or (0, (1 << 64) - 1)))

    def fits(self, st, e, lo, hi):
        if lo <= e.lo and e.hi <= hi:
            return True
        a, b = st.facts.range(e)
        return lo <= a and b <= hi

    def wrap(self, st, e, ty):
        lo, hi = self.int_range(ty) or (-INF, INF)
        if self.fits(st, e, lo, hi):
            return e
        if lo == 0:
            return trunc(e, self.width(ty))
        return uf('wrap%d' % self.width(ty), (e,), lo, hi)

    def binop(self, st, op, a, b, ty, dty=None):
        wo = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne') and not (isinstance(a, E) and isinstance(b, E)):
            r = TRUE if a is b else mk('uf', ('?ptreq', a, b), 0, 1)
            return r if base == 'Eq' else not_(r)
        if base == 'Offset':
            return Sym('?ptr', None)
        a, b = self.scalar(a, ty), self.scalar(b, ty)
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = {'Eq': lambda: eq(a, b), 'Ne': lambda: not_(eq(a, b)), 'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b),
                 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a)}[base]()
            return r
        rng = self.int_range(ty) or (0, (1 << 64) - 1)
        w = self.width(ty)
        isb = self.T(ty)['k'] == 'bool'
        if base in ('Add', 'Sub', 'Mul'):
            r = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
            if wo:
                ov = FALSE
                if not self.fits(st, r, *rng):
                    c = []
                    if r.hi > rng[1]:
                        c.append(lt(C(rng[1]), r))
                    if r.lo < rng[0]:
                        c.append(lt(r, C(rng[0])))
                    ov = c[0] if len(c) == 1 else or_(c[0], c[1])
                return Agg(dty, 0, (r, ov))
            if 'Unchecked' in op:
                return r
            return self.wrap(st, r, ty)
        if base == 'Div':
            return div(a, b)
        if base == 'Rem':
            return rem(a, b)
        if base == 'BitAnd':
            return and_(a, b) if isb else band(a, b, w)
        if base == 'BitOr':
            return or_(a, b) if isb else bor(a, b, w)
        if base == 'BitXor':
            if isb:
                return not_(eq(a, b)) if not (is_c(a) or is_c(b)) else (
                    (not_(b) if a.a else b) if is_c(a) else (not_(a) if b.a else a))
            return bxor(a, b, w)
        if base in ('Shl', 'Shr'):
            n = st.facts.const(b)
            if n is not None and 0 <= n < w:
                if base == 'Shl':
                    if a.lo >= 0 and (a.hi << n) <= rng[1] and n == 0:
                        return a
                    return shl(a, n, w)
                if a.lo >= 0:
                    return shr(a, n, w)
            return uf(base, (a, b), *rng)
        if base == 'Cmp':
            oty = dty
            if self.need(st, lt(a, b)):
                return Agg(oty, 0, ())
            if self.need(st, eq(a, b)):
                return Agg(oty, 1, ())
            return Agg(oty, 2, ())
        return uf('?' + op, (a, b), *rng)

    def rvalue(self, st, fid, r, inst, dplace):
        k = r[0]
        if k == 'use':
            return self.operand(st, fid, r[1], inst)
        if k == 'ref':
            c, p = self.resolve(st, fid, r[2])
            return Ref(c, p)
        if k == 'agg':
            fs = [self.operand(st, fid, o, inst) for o in r[3]]
            if r[1] == 'array':
                return self.seq([('e', x) for x in fs])
            if r[1] == 'tuple':
                return Agg(self.place_ty(inst, dplace), 0, fs)
            if r[1] == 'adt':
                return Agg(r[2][0], r[2][1], fs)
            if r[1] in ('closure', 'coroutine'):
                ty = r[2] if isinstance(r[2], int) else r[2][0]
                return Agg(ty, 0, fs)
            return fs[0] if fs else Sym('?rawptr', None)
        if k == 'bin':
            ty = self.op_ty(inst, r[2])
            return self.binop(st, r[1], self.operand(st, fid, r[2], inst), self.operand(st, fid, r[3], inst), ty,
                              self.place_ty(inst, dplace))
        if k == 'un':
            v = self.operand(st, fid, r[2], inst)
            ty = self.op_ty(inst, r[2])
            if r[1] == 'Not':
                v = self.scalar(v, ty)
                return not_(v) if self.T(ty)['k'] == 'bool' else bnot(v, self.width(ty))
            if r[1] == 'Neg':
                return self.wrap(st, mulc(self.scalar(v, ty), -1), ty)
            if r[1] == 'PtrMetadata':
                x = self.rd(st, v)
                if not isinstance(x, E) and x.k == 'seq':
                    return self.seq_len(x)
                return uf('?meta', (v,), 0, MAXLEN)
            return Sym('?un', None)
        if k == 'discr':
            v = self.load(st, *self.resolve(st, fid, r[1]))
            if isinstance(v, E):
                return v
            return self.discr(v, st)
        if k == 'cast':
            v = self.operand(st, fid, r[2], inst)
            return self.cast(st, r[1], v, self.op_ty(inst, r[2]), r[3])
        if k == 'repeat':
            v = self.operand(st, fid, r[1], inst)
            n = r[2]
            if not isinstance(n, int):
                t = self.T(self.place_ty(inst, dplace))
                n = t.get('len')
            return self.seq([('r', v, C(n) if isinstance(n, int) else length('?rep'))])
        return self.mk_sym('?rv:%s' % k, self.place_ty(inst, dplace))

    def cast(self, st, kind, v, sty, ty):
        if kind == 'IntToInt':
            return self.wrap(st, self.scalar(v, sty), ty)
        if kind == 'Transmute':
            r = self.int_range(ty)
            if r and not isinstance(v, E) and v.k == 'seq':
                bs = self.flat(st, v)
                if bs is not None:
                    return cat_bytes(bs)
            if r and isinstance(v, E):
                return self.wrap(st, v, ty)
            if isinstance(v, E) and self.T(ty)['k'] == 'array':
                n = self.width(sty) // 8
                return self.seq([('e', slc(v, 8 * i, 8)) for i in range(n)])
            return v
        return v

    def flat(self, st, v, limit=256):
        """explicit element list of a sequence of constant length"""
        out = []
        for p in v.a:
            if p[0] == 'e':
                out.append(p[1])
            else:
                n = st.facts.const(self.plen(p))
                if n is None or n > limit:
                    return None
                for i in range(n):
                    out.append(self.atom_elem(p[1], add(p[2], C(i))) if p[0] == 's' else p[1])
        return out

    # ---------------------------------------------------------------- execution
    def fid(self, *key):
        k = self.fids.get(key)
        if k is None:
            k = self.fids[key] = len(self.fids) + 1
        return k

    def site(self, fid, bb=None):
        """call site of a frame: innermost frame that is not a polling adapter"""
        if len(self._rfid) != len(self.fids):
            self._rfid = {v: k for k, v in self.fids.items()}
        cur, b = fid, bb
        first = None
        for _ in range(200):
            k = self._rfid.get(cur)
            if k is None:
                break
            inst = k[-1] if isinstance(k[-1], int) else None
            if k[0] == 'scen':
                inst = k[2] if len(k) > 2 else None
            if inst is None or inst >= len(self.I):
                break
            i = self.I[inst]
            if i['local'] and b is not None and b < len(i['blocks']):
                w = '%s %s' % (i['name'].split('::{')[0], i['blocks'][b].get('sp'))
                if first is None:
                    first = w
                if not i.get('fn_name', '').startswith('poll_') and 'poll_' not in i['name'].split('::')[-1]:
                    return w
            if not isinstance(k[0], int):
                break
            cur, b = k[0], k[1]
        return first or '?'

    def fn(self, inst):
        f = self.fns.get(inst)
        if f is None:
            f = self.fns[inst] = Fn(self.I[inst])
        return f

    def run_fn(self, inst, args, st, fid, keep=False):
        i = self.I[inst]
        if not i.get('blocks') or i.get('failed'):
            return None
        f = self.fn(inst)
        if i['local']:
            self.visited.add(inst)
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Budget('call depth')
        try:
            for k, a in enumerate(args):
                st.mem[(fid, k + 1)] = a
            outs = []
            for o in self.run_region(f, fid, 0, st, None):
                if o[0] == 'ret':
                    s = o[1]
                    v = s.mem.get((fid, 0), UNINIT)
                    if v is UNINIT and self.T(i['locals'][0])['k'] == 'tuple':
                        v = Agg(i['locals'][0], 0, ())
                    if not keep:
                        for l in range(len(i['locals'])):
                            s.mem.pop((fid, l), None)
                    outs.append(('ret', s, v))
                else:
                    outs.append(o)
        finally:
            self.depth -= 1
        if len(outs) > 1:
            outs = self.join_rets(outs, i, st.facts)
        return outs

    def join_rets(self, outs, i, base):
        groups, res = {}, []
        for o in outs:
            if o[0] != 'ret':
                res.append(o)
                continue
            s = o[1]
            key = (frozenset(s.mem.items()), s.ev, frozenset(s.ghost.items()), o[2])
            groups.setdefault(key, []).append(o)
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            byval = {}
            for o in g:
                byval.setdefault(o[2], []).append(o[1])
            for v, ss in byval.items():
                for s in self.union(ss):
                    res.append(('ret', s, v))
        return res

    def run_region(self, f, fid, entry, st, loop):
        """returns outcomes: ('ret',st) ('panic',st,info) ('exit',bb,st) ('back',bb,st)"""
        out = []
        heap = []
        pend = {}
        started = False
        body = f.loops.get(loop) if loop is not None else None

        def push(b, s):
            if b not in pend:
                pend[b] = []
                heapq.heappush(heap, (f.rpo[b], b))
            pend[b].append(s)

        push(entry, st)
        while heap:
            _, b = heapq.heappop(heap)
            states = pend.pop(b)
            if len(states) > 1:
                states = self.merge(f, fid, b, states)
            for s in states:
                if b in f.loops and not (b == loop and not started):
                    res = self.run_loop(f, fid, b, s)
                else:
                    started = True if b == loop else started
                    res = self.exec_block(f, fid, b, s)
                for o in res:
                    if o[0] == 'goto':
                        t = o[1]
                        if loop is not None and t == loop:
                            out.append(('back', t, o[2]))
                        elif body is not None and t not in body:
                            out.append(('exit', t, o[2]))
                        elif self.blocks_ok(f, t):
                            push(t, o[2])
                    else:
                        out.append(o)
            started = True
        return out

    @staticmethod
    def blocks_ok(f, t):
        return t in f.rpo

    def clean(self, f, fid, b, s):
        for l in f.dead[b]:
            s.mem.pop((fid, l), None)

    def merge(self, f, fid, b, states):
        groups = {}
        for s in states:
            self.clean(f, fid, b, s)
            key = (frozenset(s.mem.items()), s.ev, frozenset(s.ghost.items()))
            groups.setdefault(key, []).append(s)
        res = []
        for g in groups.values():
            res += self.union(g)
        return res

    def union(self, g):
        """merge states that differ in their facts only, where the union is exact"""
        if len(g) == 1:
            return g
        cur = list(g)
        ch = True
        while ch and len(cur) > 1:
            ch = False
            out = []
            for s in cur:
                for k, t in enumerate(out):
                    u = t.facts.exact_union(s.facts)
                    if u is not None:
                        t2 = t.copy()
                        t2.facts = u
                        out[k] = t2
                        ch = True
                        break
                else:
                    out.append(s)
            cur = out
        if len(cur) > self.max_disj:
            s = cur[0].copy()
            for x in cur[1:]:
                s.facts = s.facts.join(x.facts)
            s.lossy = True
            self.njoins += 1
            return [s]
        return cur

    def exec_block(self, f, fid, b, st, i0=0):
        inst = f.i
        blk = f.blocks[b]
        ss = blk['s']
        self.steps += 1 + len(ss)
        if self.steps > self.max_steps:
            raise Budget('steps')
        i = i0
        try:
            n = len(ss)
            while i < n:
                s = ss[i]
                if s[0] == '=':
                    v = self.rvalue(st, fid, s[2], inst, s[1])
                    if len(s[1]) == 1:
                        st.mem[(fid, s[1][0])] = v
                    else:
                        c, p = self.resolve(st, fid, s[1])
                        self.store(st, c, p, v)
                elif s[0] == 'setd':
                    c, p = self.resolve(st, fid, s[1])
                    v = self.load(st, c, p)
                    if not isinstance(v, E) and v.k == 'agg':
                        self.store(st, c, p, Agg(v.a[0], s[2], v.a[2]))
                elif s[0] == 'assume':
                    v = self.operand(st, fid, s[1], inst)
                    if isinstance(v, E):
                        x = st.facts.assume(v, True)
                        if x is None:
                            return []
                        st.facts = x
                i += 1
            return self.terminator(f, fid, b, st, blk)
        except Fork as e:
            out = []
            self.log_cond(e.cond)
            for tr in (True, False):
                s2 = st.assume(e.cond, tr)
                if s2 is not None:
                    out += self.exec_block(f, fid, b, s2, i)
            return out

    def log_cond(self, c):
        if self.cond_log is not None:
            self.cond_log.append(c)

    def terminator(self, f, fid, b, st, blk):
        t = blk['t']
        k = t[0]
        inst = f.i
        if k == 'goto':
            return [('goto', t[1], st)]
        if k == 'drop':
            return [('goto', t[2], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'switch':
            v = self.scalar(self.operand(st, fid, t[1], inst), t[4] if len(t) > 4 else None)
            out = []
            cur = st
            ty = t[4] if len(t) > 4 else None
            for val, bb in t[2]:
                val = int(val)
                r = self.int_range(ty) if ty is not None else None
                if r and r[0] < 0 and val > r[1]:
                    val -= 1 << self.width(ty)
                c = eq(v, C(val))
                d = cur.facts.decide(c)
                if d is False:
                    continue
                if d is True:
                    out.append(('goto', bb, cur))
                    cur = None
                    break
                self.log_cond(c)
                s2 = cur.assume(c, True)
                if s2 is not None:
                    out.append(('goto', bb, s2))
                cur = cur.assume(c, False)
                if cur is None:
                    break
            if cur is not None and t[3] is not None:
                out.append(('goto', t[3], cur))
            return out
        if k == 'assert':
            v = self.scalar(self.operand(st, fid, t[1], inst), self.BOOL)
            exp = bool(t[2])
            out = []
            d = st.facts.decide(v)
            if d is None or d == exp:
                s2 = st if d is not None else st.assume(v, exp)
                if d is None:
                    self.log_cond(v)
                if s2 is not None:
                    out.append(('goto', t[5], s2))
            if d is None or d != exp:
                s3 = st if d is not None else st.assume(v, not exp)
                if s3 is not None:
                    ops = [self.operand(st, fid, o, inst) for o in t[4]] if t[4] else []
                    out.append(('panic', s3, dict(kind='assert:%s' % t[3], fn=inst['name'], sp=blk.get('sp'),
                                                  local=inst['local'], cond=v, ops=ops, fid=fid, bb=b)))
            return out
        if k == 'call':
            return self.call(f, fid, b, st, blk)
        if k in ('unreachable', 'stop'):
            return []
        if k == 'yield':
            return [('panic', st, dict(kind='yield', fn=inst['name'], sp=blk.get('sp'), local=inst['local']))]
        return []

    def call(self, f, fid, b, st, blk):
        t = blk['t']
        inst = f.i
        fv = self.operand(st, fid, t[1], inst)
        args = [self.operand(st, fid, o, inst) for o in t[2]]
        dty = t[5] if len(t) > 5 else self.place_ty(inst, t[3])
        argtys = [self.op_ty(inst, o) for o in t[2]]
        ctx = dict(fid=fid, bb=b, dty=dty, sp=blk.get('sp'), fn=inst['name'], local=inst['local'], argtys=argtys,
                   inst=inst['id'])
        try:
            outs = self.apply(fv, args, st.copy(), ctx)
        except PanicX as e:
            info = dict(fn=inst['name'], sp=blk.get('sp'), local=inst['local'], fid=fid, bb=b)
            info.update(e.info)
            return [('panic', st, info)]
        res = []
        for o in outs:
            if o[0] == 'ret':
                if t[4] is None:
                    continue
                s = o[1]
                if len(t[3]) == 1:
                    s.mem[(fid, t[3][0])] = o[2]
                    res.append(('goto', t[4], s))
                else:
                    res += self._store_forked(s, fid, t[3], o[2], t[4])
            else:
                res.append(o)
        return res

    def _store_forked(self, s, fid, place, v, tgt):
        try:
            c, p = self.resolve(s, fid, place)
            self.store(s, c, p, v)
            return [('goto', tgt, s)]
        except Fork as e:
            out = []
            for tr in (True, False):
                s2 = s.assume(e.cond, tr)
                if s2 is not None:
                    out += self._store_forked(s2, fid, place, v, tgt)
            return out

    def apply(self, fv, args, st, ctx):
        """call a function value; returns [('ret',st,val)|('panic',st,info)]"""
        if isinstance(fv, E) or fv.k != 'fn':
            if not isinstance(fv, E) and fv.k == 'agg' and self.T(fv.a[0])['k'] == 'closure':
                return self.call_closure(fv, args, st, ctx)
            return self.M.unknown(dict(path='?indirect', args=[]), args, st, ctx)
        callee = FNS[fv]
        return self.call_callee(callee, args, st, ctx)

    def call_callee(self, callee, args, st, ctx):
        path = callee.get('rpath') or callee['path']
        self.calls[path] = self.calls.get(path, 0) + 1
        m = self.M.find(callee)
        if m is not None:
            r = m(callee, args, st, ctx)
            if r is not None:
                return r
        if 'ctor' in callee:
            ty, var = callee['ctor']
            return [('ret', st, Agg(ctx['dty'], var, args))]
        if callee.get('trait') in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and args:
            return self.call_fnlike(args[0], args[1], st, ctx)
        if 'inst' in callee:
            ct = self.contracts.get(callee['inst'])
            if ct is not None:
                r = ct(callee, args, st, ctx)
                if r is not None:
                    return r
            if not self.lemma:
                k = self.M.list_fn(callee['inst'])
                if k is not None:
                    r = self.M.list_model(k, callee, args, st, ctx)
                    if r is not None:
                        return r
            sub_f = self.fid(ctx['fid'], ctx['bb'], callee['inst'])
            r = self.run_fn(callee['inst'], args, st, sub_f)
            if r is not None:
                return r
        return self.M.unknown(callee, args, st, ctx)

    def call_fnlike(self, fv, tup, st, ctx):
        targs = list(tup.a[2]) if not isinstance(tup, E) and tup.k == 'agg' else []
        v = fv
        for _ in range(4):
            if not isinstance(v, E) and v.k == 'ref':
                v = self.rd(st, v)
            else:
                break
        if not isinstance(v, E) and v.k == 'fn':
            return self.apply(v, targs, st, ctx)
        if not isinstance(v, E) and v.k in ('agg', 'sym') and self.T(v.a[0] if v.k == 'agg' else v.a[1])['k'] == 'closure':
            return self.call_closure(fv, targs, st, ctx)
        return self.M.unknown(dict(path='?fnlike', args=[]), [fv] + targs, st, ctx)

    def call_closure(self, fv, targs, st, ctx):
        v = fv
        ref = None
        while not isinstance(v, E) and v.k == 'ref':
            ref = v
            v = self.rd(st, v)
        ty = v.a[0] if v.k == 'agg' else v.a[1]
        inst = self.T(ty).get('inst')
        if inst is None:
            return self.M.unknown(dict(path='?closure', args=[]), targs, st, ctx)
        sub_f = self.fid(ctx['fid'], ctx['bb'], inst)
        t1 = self.T(self.I[inst]['locals'][1])
        if t1['k'] == 'ref':
            if ref is None:
                cell = ('tmp', sub_f)
                st.mem[cell] = v
                ref = Ref(cell)
            a1 = ref
        else:
            a1 = v
        r = self.run_fn(inst, [a1] + targs, st, sub_f)
        if r is None:
            return self.M.unknown(dict(path='?closure', args=[]), targs, st, ctx)
        return r

    # ---------------------------------------------------------------- loops
    def run_loop(self, f, fid, h, s0):
        wkey = (fid, h)
        self.clean(f, fid, h, s0)
        if wkey not in self.widen_known:
            cur, outs, n, both = [s0.copy()], [], 0, 0
            ok = False
            while True:
                backs = []
                normal = False
                for s in cur:
                    for o in self.run_region(f, fid, h, s.copy(), h):
                        if o[0] == 'back':
                            backs.append(o[2])
                        else:
                            outs.append(('goto', o[1], o[2]) if o[0] == 'exit' else o)
                            st2 = o[2] if o[0] == 'exit' else o[1]
                            if o[0] != 'panic' and st2.nerr == s.nerr:
                                normal = True
                n += 1
                if not backs:
                    ok = True
                    break
                if self.iter_cap is not None and n > self.iter_cap:
                    # only executions with few iterations are being looked at
                    ok = True
                    break
                if self.iter_cap is not None:
                    cur = self.merge(f, fid, h, backs) if len(backs) > 1 else backs
                    continue
                if normal:
                    both += 1
                if both > self.unroll_both or len(backs) > (self.unroll_backs if both > 1 else 40) or n > 400:
                    break
                cur = self.merge(f, fid, h, backs) if len(backs) > 1 else backs
                if len(backs) == 1:
                    self.clean(f, fid, h, backs[0])
            if ok:
                return outs
            self.widen_known.add(wkey)
        return self.widen(f, fid, h, s0)

    def widen(self, f, fid, h, s0):
        self.nloop += 1
        lid = 'L%d' % self.nloop
        memo = self.widen_memo.get((fid, h))
        M = {}          # loc -> [kind, ...]
        bad = set()     # rejected candidates
        extra = {}      # loc -> list of bound terms
        if memo:
            # start from what an earlier analysis of the same loop found to vary; a larger set is sound
            for loc, k in memo[0].items():
                if (loc[0] == 'g' and loc[1] in s0.ghost) or (loc[0] == 'm' and loc[1] in s0.mem):
                    M[loc] = list(k)
            bad = set()
            extra = {l: list(v) for l, v in memo[2].items() if l in M}
        saved_log = self.cond_log
        outs, backs, H, inv, syms = [], [], s0, [], {}
        for rnd in range(40):
            H, inv, syms = self.havoc(f, fid, s0, M, lid, bad, extra)
            if H is None:
                # contradictory candidate set cannot happen for sound candidates; drop them
                for x in inv:
                    bad.add(x[0])
                continue
            self.cond_log = []
            outs = self.run_region(f, fid, h, H.copy(), h)
            log = self.cond_log
            self.cond_log = saved_log
            if saved_log is not None:
                saved_log.extend(log)
            backs = [o[2] for o in outs if o[0] == 'back']
            changed = False
            for bst in backs:
                self.clean(f, fid, h, bst)
                if self.diff_state(H, bst, M, lid, s0):
                    changed = True
            if changed:
                continue
            # relational / bound candidates
            rej = False
            for bst in backs:
                for key, cond in self.check_inv(inv, syms, bst):
                    if key not in bad:
                        bad.add(key)
                        rej = True
            if rej:
                continue
            new = self.propose(syms, log, extra, s0)
            if new:
                continue
            break
        else:
            raise Budget('loop fixpoint')
        self.widen_memo[(fid, h)] = (M, bad, extra)
        # record iteration alternatives
        info = dict(fn=f.i['name'], header=h, alts=[], s0=s0, H=H, syms=syms, backs=backs, kinds={k: v[0] for k, v in M.items()})
        for bst in backs:
            info['alts'].append(bst.events(H.ev))
        self.loops[lid] = info
        for loc, k in M.items():
            if k[0] == 'append':
                atom = '%s:%s' % (lid, locname(loc))
                alts = []
                hv = self.getloc(H, loc)
                for bst in backs:
                    bv = self.getloc(bst, loc)
                    alts.append(self.seq(self.suffix(hv, bv) or []))
                self.loop_atoms[atom] = (lid, alts)
        res = []
        for o in outs:
            if o[0] == 'exit':
                st = self.settle(o[2], syms, H.ev)
                if st is not None:
                    res.append(('goto', o[1], st))
            elif o[0] != 'back':
                res.append(o)
        return res

    def settle(self, st, syms, since):
        """where leaving a loop that fills a buffer fixes how much was read, that value replaces the symbol of the loop"""
        frees = [v for v, v0, k, _ in syms.values() if k == 'free']
        for loc in {b for _, _, k, b in syms.values() if k == 'seq' and b is not None}:
            v = syms[loc][0]
            t = equal_term(st.facts, v, frees)
            if t is not None:
                st = Subst(self, v, t).state(st, since)
                if st is None:
                    return None
        return st

    # location: ('m', cell, path) or ('g', key)
    def getloc(self, st, loc):
        if loc[0] == 'g':
            v = st.ghost.get(loc[1])
            return v if v is not None else self.M.ghost_default(loc[1])
        return self.load(st, loc[1], loc[2])

    def setloc(self, st, loc, v):
        if loc[0] == 'g':
            st.ghost[loc[1]] = v
        else:
            self.store(st, loc[1], loc[2], v)

    def loc_ty(self, f, fid, loc):
        if loc[0] == 'g':
            return None
        cell, path = loc[1], loc[2]
        if cell[0] == 'sym':
            ty = cell[2]
        elif isinstance(cell[0], int) and cell[0] == fid:
            ty = f.i['locals'][cell[1]]
        else:
            ty = None
        for p in path:
            if p[0] == 'f':
                ty = p[3] if p[3] is not None else (self.field_ty(ty, p[1], p[2]) if ty is not None else None)
            elif p[0] == 'i':
                ty = self.seq_elem(ty) if ty is not None else None
        return ty

    def diff_state(self, H, B, M, lid, s0):
        ch = False
        for cell, bv in B.mem.items():
            hv = H.mem.get(cell)
            if hv is bv:
                continue
            if hv is None:
                if cell[0] == 'sym':
                    hv = self.mk_sym(cell[1], cell[2])
                    if hv is bv:
                        continue
                else:
                    continue
            ch |= self.diff_val(('m', cell, ()), hv, bv, M)
        for k, bv in B.ghost.items():
            hv = H.ghost.get(k)
            if hv is None:
                hv = self.M.ghost_default(k)
            if hv is bv or hv is None:
                continue
            if isinstance(bv, E) and isinstance(hv, E):
                kind = 'int'
            elif not isinstance(bv, E) and bv.k == 'seq' and not isinstance(hv, E) and hv.k == 'seq':
                kind = 'append' if self.suffix(hv, bv) is not None else 'seq'
            else:
                kind = 'whole'
            ch |= self.note(M, ('g', k), kind, hv, bv)
        return ch

    def note(self, M, loc, kind, hv, bv):
        rank = {'int': 0, 'append': 0, 'seq': 1, 'whole': 2}
        old = M.get(loc)
        # absorbed by a prefix already havocked entirely
        if old is None:
            M[loc] = [kind]
            return True
        if rank[kind] > rank[old[0]]:
            M[loc] = [kind]
            return True
        return False

    def diff_val(self, loc, a, b, M):
        if a is b:
            return False
        if isinstance(a, E) and isinstance(b, E):
            return self.note(M, loc, 'int', a, b)
        if not isinstance(a, E) and not isinstance(b, E):
            if a.k == 'sym' and b.k == 'agg' and loc not in M:
                x = self.expand(a, b.a[1]) if self.T(a.a[1])['k'] != 'adt' or self.T(a.a[1])['kind'] != 'enum' else None
                if x is not None:
                    a = x
            if a.k == 'agg' and b.k == 'agg' and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
                t = self.T(a.a[0])
                var = a.a[1] if t['k'] == 'adt' and t['kind'] == 'enum' else None
                ch = False
                for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                    if x is not y:
                        ch |= self.diff_val((loc[0], loc[1], loc[2] + (('f', var, i, self.field_ty(a.a[0], a.a[1], i)),)), x, y, M)
                return ch
            if a.k == 'obj' and b.k == 'obj' and a.a[0] == b.a[0] and a.a[2] == b.a[2] and len(a.a[1]) == len(b.a[1]):
                ch = False
                for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                    if x is not y:
                        ch |= self.diff_val((loc[0], loc[1], loc[2] + (('f', None, i, None),)), x, y, M)
                return ch
            if a.k == 'seq' and b.k == 'seq':
                if self.suffix(a, b) is not None:
                    return self.note(M, loc, 'append', a, b)
                return self.note(M, loc, 'seq', a, b)
        return self.note(M, loc, 'whole', a, b)

    def suffix(self, a, b):
        """parts appended to a to obtain b, or None"""
        if len(b.a) < len(a.a):
            return None
        for i, p in enumerate(a.a):
            q = b.a[i]
            if p != q:
                if i == len(a.a) - 1 and p[0] == q[0] == 's' and p[1] == q[1] and p[2] is q[2]:
                    d = sub(q[3], p[3])
                    if d.lo >= 0:
                        return [('s', p[1], add(p[2], p[3]), d)] + list(b.a[i + 1:])
                if i == len(a.a) - 1 and p[0] == q[0] == 'r' and p[1] is q[1]:
                    d = sub(q[2], p[2])
                    if d.lo >= 0:
                        return [('r', p[1], d)] + list(b.a[i + 1:])
                return None
        return list(b.a[len(a.a):])

    def havoc(self, f, fid, s0, M, lid, bad, extra):
        H = s0.copy()
        H.ev = (s0.ev, ('loop', lid))
        inv = []
        syms = {}
        locs = sorted(M, key=lambda l: (M[l][0] == 'append', 0 if l[0] == 'g' else 1, len(l[2]) if l[0] == 'm' else 0, locname(l)))
        whole = [l for l in locs if M[l][0] in ('whole', 'seq')]

        def covered(l):
            return any(w is not l and w[0] == l[0] == 'm' and w[1] == l[1] and len(w[2]) < len(l[2]) and l[2][:len(w[2])] == w[2]
                       for w in whole)
        ints = []
        for loc in locs:
            if covered(loc):
                continue
            kind = M[loc][0]
            name = '%s:%s' % (lid, locname(loc))
            try:
                v0 = self.getloc(s0, loc)
            except Fork:
                v0 = None
            ty = self.loc_ty(f, fid, loc)
            if kind == 'int':
                if not isinstance(v0, E):
                    continue
                base = None
                for b in ints:
                    if ('rel', loc, b) not in bad:
                        base = b
                        break
                if base is not None:
                    bsym, b0 = syms[base][0], syms[base][1]
                    v = add(bsym, sub(v0, b0))
                    syms[loc] = (v, v0, 'rel', base)
                else:
                    r = self.int_range(ty) if ty is not None else None
                    if r is None:
                        r = (min(v0.lo, 0), max(v0.hi, (1 << 64) - 1))
                        if loc[0] == 'g':
                            r = (0, r[1])      # ghosts are positions and lengths
                        if v0.lo == 0 and v0.hi == 1 and loc[0] == 'm' and v0.k != 'c':
                            r = (0, 1)
                    v = S(name, *r)
                    syms[loc] = (v, v0, 'free', None)
                    ints.append(loc)
            elif kind == 'append':
                el = self.seq_elem(ty) if ty is not None else None
                if el is None:
                    el = self.guess_elem(v0)
                self.atom_ty[name] = el
                n, base = length(name), None
                if el is not None and (el is not self.U8 or loc[0] == 'g' and loc[1][0] == 'out'):
                    # a list that grows by one element (output: byte) whenever an integer of the loop grows by one
                    for b in ints:
                        if ('rel', loc, b) not in bad and ('ge', b) not in bad and (syms[b][1].hi < 1 << 64 or loc[0] == 'g'):
                            base = b
                            n = sub(syms[b][0], syms[b][1])
                            break
                v = self.seq(list(v0.a) + [('s', name, ZERO, n)])
                syms[loc] = (v, v0, 'append', base)
            elif kind == 'seq':
                el = self.seq_elem(ty) if ty is not None else self.guess_elem(v0)
                self.atom_ty[name] = el
                n0 = self.seq_len(v0) if not isinstance(v0, E) and v0.k == 'seq' else length(name)
                if ('len', loc) in bad:
                    n0 = length(name)
                v = Seq([('s', name, ZERO, n0)])
                base = None
                if el is self.U8 and ('len', loc) not in bad:
                    # a buffer that holds, from its start, what was read from a source since the loop began
                    for b in ints:
                        if b[0] == 'g' and b[1][0] == 'rpos' and ('fill', loc, b) not in bad and ('ge', b) not in bad:
                            base = b
                            k = sub(syms[b][0], syms[b][1])
                            v = self.seq([('s', self.M.fatom(b[1][1]), syms[b][1], k), ('s', name, ZERO, sub(n0, k))])
                            break
                syms[loc] = (v, v0, 'seq', base)
            else:
                v = self.mk_sym('?' + name, ty)
                syms[loc] = (v, v0, 'whole', None)
            try:
                self.setloc(H, loc, v)
            except Fork:
                pass
        for loc, (v, v0, k, _) in syms.items():
            if k == 'free':
                for key, c in ((('ge', loc), le(v0, v)), (('le', loc), le(v, v0))):
                    if key not in bad and c.k != 'c':
                        inv.append((key, c, loc))
                more = [self.M.flen(loc[1][1])] if loc[0] == 'g' and loc[1][0] == 'rpos' else []
                for t in list(extra.get(loc, ())) + more:
                    key = ('ub', loc, t)
                    if key not in bad:
                        c = le(v, t)
                        if s0.facts.decide(le(v0, t)) is not True:
                            bad.add(key)
                            continue
                        if c.k != 'c':
                            inv.append((key, c, loc))
            elif k == 'seq' and ('len', loc) not in bad:
                inv.append((('len', loc), None, loc))
                b = syms[loc][3]
                if b is not None:
                    inv.append((('fill', loc, b), le(sub(syms[b][0], syms[b][1]), self.seq_len(v0)), loc))
            elif k == 'rel' or k == 'append' and syms[loc][3] is not None:
                inv.append((('rel', loc, syms[loc][3]), None, loc))
        for key, c, loc in inv:
            if c is not None:
                fx = H.facts.assume(c, True)
                if fx is None:
                    return None, inv, syms
                H.facts = fx
        return H, inv, syms

    def guess_elem(self, v):
        if not isinstance(v, E) and v.k == 'seq':
            for p in v.a:
                if p[0] == 's':
                    return self.atom_ty.get(p[1])
                if isinstance(p[1], E):
                    return self.U8
                if p[1].k == 'agg':
                    return p[1].a[0]
                if p[1].k == 'sym':
                    return p[1].a[1]
        return self.U8

    def check_inv(self, inv, syms, B):
        for key, c, loc in inv:
            v, v0, k, base = syms[loc]
            try:
                bv = self.getloc(B, loc)
            except Fork:
                yield key, c
                continue
            if key[0] == 'ge':
                ok = isinstance(bv, E) and B.facts.decide(le(v0, bv)) is True
            elif key[0] == 'le':
                ok = isinstance(bv, E) and B.facts.decide(le(bv, v0)) is True
            elif key[0] == 'ub':
                ok = isinstance(bv, E) and B.facts.decide(le(bv, key[2])) is True
            elif key[0] == 'fill':
                b2, b0 = self.getloc(B, base), syms[base][1]
                ok = False
                if isinstance(b2, E) and not isinstance(bv, E) and bv.k == 'seq' and bv.a:
                    k = sub(b2, b0)
                    q = bv.a[0]
                    ok = q[0] == 's' and q[1] == self.M.fatom(base[1][1]) and q[2] is b0 and q[3] is k and B.facts.decide(le(k, self.seq_len(v0))) is True
            elif key[0] == 'len':
                ok = not isinstance(bv, E) and bv.k == 'seq' and self.same_len(B, bv, v)
            else:
                b2 = self.getloc(B, base)
                if k == 'append':
                    bv = None if isinstance(bv, E) or bv.k != 'seq' else self.seq_len(bv)
                    v0 = self.seq_len(v0)
                ok = isinstance(bv, E) and isinstance(b2, E) and sub(bv, b2) is sub(v0, syms[base][1])
            if not ok:
                yield key, c

    def same_len(self, st, a, b):
        d = sub(self.seq_len(a), self.seq_len(b))
        return st.facts.range(d) == (0, 0)

    def propose(self, syms, log, extra, s0):
        new = False
        frees = {v: loc for loc, (v, v0, k, _) in syms.items() if k == 'free'}
        if not frees:
            return False
        for c in log:
            while c.k == 'not':
                c = c.a[0]
            if c.k == 'le':
                L = c.a[0]
            elif c.k == 'eq':
                L = c.a[0]
            else:
                continue
            _, d = to_lin(L)
            for t, k in d.items():
                loc = frees.get(t)
                if loc is None or abs(k) != 1:
                    continue
                # candidates: t <= sum of the atoms of opposite sign
                others = {x: -y * k for x, y in d.items() if x is not t and -y * k > 0}
                cands = []
                if others:
                    cc, _ = to_lin(L)
                    b = -cc * k if c.k == 'le' else c.a[1] * k
                    cands += [from_lin(x, others) for x in dict.fromkeys((b, b + 1, b - 1, 0))]
                else:
                    cc, _ = to_lin(L)
                    if c.k == 'le':
                        cands += [C(-cc * k), C(-cc * k + 1)]
                    else:
                        cands.append(C(c.a[1]))
                for tt in cands:
                    # the bound must not depend on loop-varying symbols
                    if any(x in frees for x in subterms(tt)):
                        continue
                    lst = extra.setdefault(loc, [])
                    if tt not in lst and len(lst) < 16:
                        lst.append(tt)
                        new = True
        return new


def locname(loc):
    if loc[0] == 'g':
        return 'g.' + '.'.join(str(x) for x in loc[1]) if isinstance(loc[1], tuple) else 'g.' + str(loc[1])
    c = loc[1]
    s = c[1] if c[0] == 'sym' else ('v%s_%s' % (c[0], c[1]) if len(c) > 1 else str(c))
    return str(s) + ''.join('.' + pathshow(p) for p in loc[2])


def delta(base, f):
    d = []
    for D, r in f.iv.items():
        if base.iv.get(D) != r:
            d.append(('iv', D, r))
    for x in f.ne:
        if x not in base.ne:
            d.append(('ne',) + x)
    for k, v in f.lit.items():
        if k not in base.lit:
            d.append(('lit', k, v))
    return frozenset(d)
