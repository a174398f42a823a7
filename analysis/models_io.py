"""I/O models: readers, writers, futures, codecs.

A user-supplied reader is an abstract byte string F:<name> with a position; a user-supplied writer is a growing byte
string. Every operation on them may also fail with a fresh error value (or, in poll mode, be pending / partial)."""
from terms import *
from values import *

DECODERS = ('BzDecoder', 'Deflate64Decoder', 'DeflateDecoder', 'LzmaDecoder', 'XzDecoder', 'ZstdDecoder')
ENCODERS = ('BzEncoder', 'DeflateEncoder', 'LzmaEncoder', 'XzEncoder', 'ZstdEncoder')
POSMAX = (1 << 63) - 1


def K(*keys):
    def d(f):
        f._keys = keys
        return f
    return d


def tail(c):
    return (c.get('path') or '').split('::')[-1]


class IoModels:
    # ------------------------------------------------------------ results
    def r_ok(self, dty, v):
        return Agg(dty, 0, (v,))

    def r_err(self, dty, v):
        return Agg(dty, 1, (v,))

    def ready(self, dty, v):
        return Agg(dty, 0, (v,))

    def ready_ok(self, dty, v):
        return Agg(dty, 0, (Agg(self.arg0(dty), 0, (v,)),))

    def ready_err(self, dty, v):
        return Agg(dty, 0, (Agg(self.arg0(dty), 1, (v,)),))

    def pending(self, dty):
        return Agg(dty, 1, ())

    def ioerr(self, st, what, ctx):
        """a fresh error; returns (state, error value)"""
        s = st.copy()
        s.nio += 1
        s.nerr += 1
        name = 'ioerr#%d:%s' % (s.nio, what)
        s.emit('ioerr', name, ctx['fn'], ctx['sp'], ctx['fid'], ctx['bb'])
        return s, Sym(name, None)

    # ------------------------------------------------------------ object resolution
    def obj(self, st, ref):
        """follow references to the I/O object -> (ref, value)"""
        e = self.e
        for _ in range(10):
            if isinstance(ref, E):
                return None, None
            if ref.k == 'agg' and e.adt(ref.a[0]) == 'std::pin::Pin' and ref.a[2]:
                ref = ref.a[2][0]
                continue
            if ref.k != 'ref':
                return None, ref
            v = e.rd(st, ref)
            if isinstance(v, E):
                return None, None
            if v.k == 'ref' or (v.k == 'agg' and e.adt(v.a[0]) in ('std::pin::Pin', 'std::boxed::Box')):
                ref = v
                continue
            return ref, v
        return None, None

    def fld(self, ref, i):
        return self.e.sub_ref(ref, ('f', None, i, None))

    def kind(self, v):
        """classify an I/O object value"""
        e = self.e
        if v is None or isinstance(v, E):
            return 'unknown'
        if v.k == 'obj':
            return v.a[0]
        if v.k == 'sym':
            t = e.T(v.a[1])
            if t['k'] == 'adt':
                if t['local']:
                    return 'local'
                n = t['name'].split('::')[-1]
                if n in DECODERS:
                    return 'symdec'
                if n in ENCODERS:
                    return 'symenc'
            if v.a[0].startswith('?'):
                return 'unknown'
            return 'base'
        if v.k == 'agg':
            t = e.T(v.a[0])
            if t['k'] == 'adt' and t['local']:
                return 'local'
        if v.k == 'seq':
            return 'mem'
        return 'unknown'

    def local_impl(self, v, trait, fn):
        ty = v.a[0] if v.k == 'agg' else v.a[1]
        return self.impls.get((trait, fn, self.e.T(ty)['name']))

    def call_impl(self, inst, args, st, ctx):
        sub_f = self.e.fid(ctx['fid'], ctx['bb'], ctx.get('sub', 0), inst)
        self.e.calls[self.e.I[inst]['name']] = self.e.calls.get(self.e.I[inst]['name'], 0) + 1
        return self.e.run_fn(inst, args, st, sub_f)

    def pin(self, ref):
        return Agg(None, 0, (ref,))

    # ------------------------------------------------------------ ghost state
    def rpos(self, st, name):
        v = st.ghost.get(('rpos', name))
        return v if v is not None else self.ghost_default(('rpos', name))

    def ghost_default(self, k):
        if k[0] == 'rpos':
            return S(k[1] + '.pos0', 0, POSMAX)
        if k[0] == 'out':
            return self.e.seq([])
        return None

    def fatom(self, name):
        a = 'F:' + name
        self.e.atom_ty[a] = self.e.U8
        return a

    def flen(self, name):
        return length(self.fatom(name))

    def out(self, st, name):
        return st.ghost.get(('out', name)) or self.e.seq([])

    def base_name(self, v):
        return v.a[0]

    # ------------------------------------------------------------ reading
    # read outcomes: list of (st, 'ok', n) / (st, 'err', value) / (st, 'pending', None) / ('panic' outcome)
    def do_read(self, st, ref, bufref, ctx, depth=0):
        """one read into bufref -> list of tuples"""
        e = self.e
        r, v = self.obj(st, ref)
        k = self.kind(v)
        _, buf = self.seqof(st, bufref)
        if buf is None:
            return None
        L = e.seq_len(buf)
        if k == 'base':
            name = self.base_name(v)
            st.nio += 1
            n = S('n#%d' % st.nio, 0, POSMAX)
            res = []
            pos = self.rpos(st, name)
            F = self.fatom(name)
            # end of data (or empty buffer)
            for z in self._assume_any(st, [eq(L, ZERO), le(self.flen(name), pos)]):
                # an empty buffer says nothing about the end of the data
                z.emit('read', name, pos, ZERO, ctx['fn'], *(('empty',) if z.facts.decide(eq(L, ZERO)) else ()))
                res.append((z, 'ok', ZERO))
            s1 = st.assume(lt(pos, self.flen(name)))
            s1 = s1 and s1.assume(lt(ZERO, L))
            if s1:
                for c in (lt(ZERO, n), le(n, L), le(add(pos, n), self.flen(name))):
                    s1 = s1 and s1.assume(c)
                if s1:
                    self._fill(s1, bufref, buf, n, ('s', F, pos, n))
                    s1.ghost[('rpos', name)] = add(pos, n)
                    s1.emit('read', name, pos, n, ctx['fn'])
                    res.append((s1, 'ok', n))
            s2, er = self.ioerr(st, 'read:' + name, ctx)
            res.append((s2, 'err', er))
            if e.poll_mode:
                s3 = st.copy()
                s3.emit('pending', name)
                res.append((s3, 'pending', None))
            return res
        if k == 'Cursor':
            d = self.cursor_data(st, v)
            if d is None:
                return None
            pos = v.a[1][1]
            n0 = e.seq_len(d)
            if e.need(st, le(n0, pos)):
                return [(st, 'ok', ZERO)]
            avail = sub(n0, pos)
            n = L if e.need(st, le(L, avail)) else avail
            data = e.seq_slice(st, d, pos, n)
            self._fill(st, bufref, buf, n, None, data)
            e.wr(st, self.fld(r, 1), add(pos, n))
            return [(st, 'ok', n)]
        if k == 'Take':
            lim = v.a[1][1]
            if e.need(st, eq(lim, ZERO)):
                st.emit('take-end')
                return [(st, 'ok', ZERO)]
            m = L if e.need(st, le(L, lim)) else lim
            sb = bufref if m is L else e.sub_ref(self.as_ref(bufref), ('r', ZERO, m))
            rs = self.do_read(st, self.fld(r, 0), sb, ctx, depth + 1)
            if rs is None:
                return None
            for o in rs:
                if o[1] == 'ok':
                    s2 = o[0]
                    f = s2.facts.assume(le(o[2], lim), True)
                    if f is not None:
                        s2.facts = f
                    e.wr(s2, self.fld(r, 1), sub(lim, o[2]))
            return rs
        if k in ('dec', 'symdec'):
            st.nio += 1
            n = S('n#%d' % st.nio, 0, POSMAX)
            at = 'dec#%d' % st.nio
            e.atom_ty[at] = e.U8
            self.havoc_inner(st, r, v)
            res = []
            if e.need(st, eq(L, ZERO)):
                st.emit('decread', ZERO, 'empty')
                return [(st, 'ok', ZERO)]
            z = st.assume(eq(n, ZERO))
            if z is not None:
                z.emit('decread', ZERO)
                res.append((z, 'ok', ZERO))
            s1 = st.assume(lt(ZERO, n))
            s1 = s1 and s1.assume(le(n, L))
            if s1:
                self._fill(s1, bufref, buf, n, ('s', at, ZERO, n))
                s1.emit('decread', n)
                res.append((s1, 'ok', n))
            s2, er = self.ioerr(st, 'decode', ctx)
            res.append((s2, 'err', er))
            if e.poll_mode:
                s3 = st.copy()
                s3.emit('pending', 'dec')
                res.append((s3, 'pending', None))
            return res
        if k == 'local':
            inst = self.local_impl(v, 'AsyncRead', 'poll_read')
            if inst is None:
                return None
            c2 = dict(ctx)
            c2['sub'] = depth + 1
            outs = self.call_impl(inst, [self.pin(r), Ref(('sym', 'cx', None)), bufref], st, c2)
            if outs is None:
                return None
            return self.unpoll(outs)
        return None

    def as_ref(self, v):
        if not isinstance(v, E) and v.k == 'agg' and v.a[2]:
            return self.as_ref(v.a[2][0])
        return v

    def unpoll(self, outs):
        """outcomes carrying Poll<Result<..>> values -> tuples"""
        res = []
        for o in outs:
            if o[0] != 'ret':
                res.append((o[1], 'panic', o))
                continue
            s, v = o[1], o[2]
            res += self._unpoll1(s, v)
        return res

    def _unpoll1(self, s, v):
        e = self.e
        if isinstance(v, E) or v.k not in ('agg', 'sym'):
            return [(s, 'ok', Sym('?poll', None))]
        out = []
        if v.k == 'sym':
            return [(s, 'ok', Sym('?poll' + v.a[0], None))]
        if v.a[1] == 1:
            return [(s, 'pending', None)]
        r = v.a[2][0]
        if isinstance(r, E) or r.k != 'agg':
            return [(s, 'ok', Sym('?pollres', None))]
        x = r.a[2][0] if r.a[2] else self.unit()
        return [(s, 'ok' if r.a[1] == 0 else 'err', x)]

    def _assume_any(self, st, conds):
        """disjoint states covering the disjunction of conds"""
        out = []
        cur = st
        for c in conds:
            if cur is None:
                break
            a = cur.assume(c, True)
            if a is not None:
                out.append(a)
            cur = cur.assume(c, False)
        return out

    def _fill(self, st, bufref, buf, n, part, data=None):
        e = self.e
        L = e.seq_len(buf)
        d = list(data.a) if data is not None else [part]
        if n is L:
            new = e.seq(d)
        else:
            _, rest = e.split(st, buf, n)
            new = e.seq(d + rest)
        r, _ = self.seqof(st, bufref)
        e.wr(st, r, new)

    def havoc_inner(self, st, r, v):
        """a codec consumed an unspecified amount of its source"""
        e = self.e
        if v.k != 'obj' or r is None:
            return
        ir, iv = self.obj(st, self.fld(r, 0))
        for _ in range(8):
            k = self.kind(iv)
            if k == 'Take':
                lim = iv.a[1][1]
                st.nio += 1
                nl = S('lim#%d' % st.nio, 0, (1 << 64) - 1)
                f = st.facts.assume(le(nl, lim), True)
                if f is not None:
                    st.facts = f
                e.wr(st, self.fld(ir, 1), nl)
                ir, iv = self.obj(st, self.fld(ir, 0))
            elif k == 'base':
                name = self.base_name(iv)
                st.nio += 1
                p = S('pos#%d' % st.nio, 0, POSMAX)
                f = st.facts.assume(le(self.rpos(st, name), p), True)
                if f is not None:
                    st.facts = f
                st.ghost[('rpos', name)] = p
                return
            elif k == 'Cursor':
                st.nio += 1
                e.wr(st, self.fld(ir, 1), S('pos#%d' % st.nio, 0, POSMAX))
                return
            elif k == 'local' and iv.k == 'agg':
                nxt = None
                for i, x in enumerate(iv.a[2]):
                    rr, vv = self.obj(st, e.sub_ref(ir, ('f', iv.a[1] if e.T(iv.a[0])['kind'] == 'enum' else None, i, None)))
                    if self.kind(vv) in ('Take', 'base', 'Cursor', 'local'):
                        nxt = (rr, vv)
                        break
                if nxt is None:
                    return
                ir, iv = nxt
            else:
                return

    def cursor_data(self, st, v):
        _, d = self.seqof(st, v.a[1][0])
        return d

    def exact_avail(self, st, ref):
        """(object kind chain supports exact draining) -> available Seq and commit function, else None"""
        e = self.e
        r, v = self.obj(st, ref)
        k = self.kind(v)
        if k == 'base':
            name = self.base_name(v)
            pos = self.rpos(st, name)
            F = self.fatom(name)
            if e.need(st, le(self.flen(name), pos)):
                s = e.seq([])
            else:
                s = e.seq([('s', F, pos, sub(self.flen(name), pos))])

            def commit(st2, n):
                st2.ghost[('rpos', name)] = add(pos, n)
                st2.emit('read', name, pos, n, None)
            return s, commit, ['read:' + name]
        if k == 'Cursor':
            d = self.cursor_data(st, v)
            if d is None:
                return None
            pos = v.a[1][1]
            n0 = e.seq_len(d)
            s = e.seq([]) if e.need(st, le(n0, pos)) else e.seq_slice(st, d, pos, sub(n0, pos))

            def commit(st2, n):
                e.wr(st2, self.fld(r, 1), add(pos, n))
            return s, commit, []
        if k == 'Take':
            ir, iv = self.obj(st, self.fld(r, 0))
            if self.kind(iv) == 'base':
                # enough bytes: exactly the limit
                name = self.base_name(iv)
                pos, lim = self.rpos(st, name), v.a[1][1]
                if e.need(st, le(add(pos, lim), self.flen(name))):
                    def commit(st2, m):
                        st2.ghost[('rpos', name)] = add(pos, m)
                        st2.emit('read', name, pos, m, None)
                        e.wr(st2, self.fld(r, 1), sub(lim, m))
                    return e.seq([('s', self.fatom(name), pos, lim)]), commit, ['read:' + name]
            x = self.exact_avail(st, self.fld(r, 0))
            if x is None:
                return None
            s, com, errs = x
            lim = v.a[1][1]
            n = e.seq_len(s)
            if e.need(st, le(lim, n)):
                s = e.seq_slice(st, s, ZERO, lim)
                n = lim

            def commit(st2, m):
                com(st2, m)
                e.wr(st2, self.fld(r, 1), sub(lim, m))
            return s, commit, errs
        return None

    def do_read_exact(self, st, ref, bufref, ctx):
        e = self.e
        _, buf = self.seqof(st, bufref)
        if buf is None:
            return None
        n = e.seq_len(buf)
        r, v = self.obj(st, ref)
        if self.kind(v) == 'base':
            name = self.base_name(v)
            pos = self.rpos(st, name)
            s1 = st.assume(le(add(pos, n), self.flen(name)))
            res = []
            if s1:
                s1.nio += 1
                self._fill(s1, bufref, buf, n, ('s', self.fatom(name), pos, n))
                s1.ghost[('rpos', name)] = add(pos, n)
                s1.emit('read', name, pos, n, ctx['fn'])
                res.append((s1, 'ok', self.unit()))
            s2, er = self.ioerr(st, 'read:' + name, ctx)
            res.append((s2, 'err', er))
            return res
        x = self.exact_avail(st, ref)
        if x is not None:
            s, com, errs = x
            res = []
            if e.need(st, le(n, e.seq_len(s))):
                s1 = st.copy()
                self._fill(s1, bufref, buf, n, None, e.seq_slice(s1, s, ZERO, n))
                com(s1, n)
                res.append((s1, 'ok', self.unit()))
            else:
                s2, er = self.ioerr(st, 'eof', ctx)
                res.append((s2, 'err', er))
            if errs:
                s2, er = self.ioerr(st, errs[0], ctx)
                res.append((s2, 'err', er))
            return res
        # poll-based reader: one full read, or an error
        rs = self.do_read(st, ref, bufref, ctx)
        if rs is None:
            return None
        res = []
        for o in rs:
            if o[1] == 'ok':
                if isinstance(o[2], E):
                    s1 = o[0].assume(eq(o[2], n))
                    if s1:
                        res.append((s1, 'ok', self.unit()))
                    s2 = o[0].assume(eq(o[2], n), False)
                    if s2:
                        s2, er = self.ioerr(s2, 'eof', ctx)
                        res.append((s2, 'err', er))
                else:
                    res.append((o[0], 'ok', self.unit()))
            elif o[1] != 'pending':
                res.append(o)
        return res

    def do_read_to_end(self, st, ref, vecref, ctx, as_str=False):
        e = self.e
        vr, vec = self.seqof(st, vecref)
        if vec is None:
            return None
        x = self.exact_avail(st, ref)
        if x is not None:
            s, com, errs = x
            s1 = st.copy()
            s1.nio += 1
            n = e.seq_len(s)
            com(s1, n)
            e.wr(s1, vr, e.seq(list(vec.a) + list(s.a)))
            res = [(s1, 'ok', n)]
            if errs:
                s2, er = self.ioerr(st, errs[0], ctx)
                res.append((s2, 'err', er))
            return res
        # poll-based reader: one data-bearing read followed by the end-of-data read
        st.nio += 1
        at = 'rbuf#%d' % st.nio
        L = S('rcap#%d' % st.nio, 1, POSMAX)
        e.atom_ty[at] = e.U8
        cell = ('heap', e.fid('rbuf', ctx['fid'], ctx['bb'], at))
        st.mem[cell] = Seq([('s', at, ZERO, L)])
        rs = self.do_read(st, ref, Ref(cell), dict(ctx, sub=901))
        if rs is None:
            return None
        res = []
        for o in rs:
            if o[1] != 'ok':
                if o[1] != 'pending':
                    res.append(o)
                continue
            s1, n = o[0], o[2]
            if not isinstance(n, E):
                res.append((s1, 'ok', n))
                continue
            if s1.facts.const(n) == 0:
                e_ok = s1.copy()
                res.append((e_ok, 'ok', ZERO))
                continue

            def fin(s, n=n):
                data = e.seq_slice(s, e.rd(s, Ref(cell)), ZERO, n)
                r2, v2 = self.seqof(s, vecref)
                e.wr(s, r2, e.seq(list(v2.a) + list(data.a)))
                s.mem[cell] = Seq([('s', at + 'b', ZERO, L)])
                e.atom_ty[at + 'b'] = e.U8
                q = self.do_read(s, ref, Ref(cell), dict(ctx, sub=902))
                outs = []
                for z in q or []:
                    if z[1] == 'ok':
                        if isinstance(z[2], E):
                            s3 = z[0].assume(eq(z[2], ZERO))
                            if s3:
                                outs.append((s3, 'ok', n))
                        else:
                            outs.append((z[0], 'ok', n))
                    elif z[1] != 'pending':
                        outs.append(z)
                return outs
            res += self.forking(s1, fin)
        return res

    # ------------------------------------------------------------ writing
    one_write = False

    def do_write(self, st, ref, bufref, ctx, depth=0):
        e = self.e
        r, v = self.obj(st, ref)
        k = self.kind(v)
        _, buf = self.seqof(st, bufref)
        if buf is None:
            return None
        L = e.seq_len(buf)
        if k == 'base':
            name = self.base_name(v)
            res = []
            s1 = st.copy()
            s1.nio += 1
            if e.poll_mode:
                n = S('w#%d' % s1.nio, 0, POSMAX)
                s1 = s1.assume(le(n, L))
                data = e.seq_slice(s1, buf, ZERO, n) if s1 else None
            else:
                n, data = L, buf
            todo = [(s1, n, data)]
            if self.one_write and s1:
                # one write call: the sink may also take less than it is offered
                sp = s1.copy()
                q = S('w#%d' % sp.nio, 0, POSMAX)
                sp = sp.assume(lt(q, L))
                if sp is not None:
                    todo.append((sp, q, e.seq_slice(sp, buf, ZERO, q)))
            for s1, n, data in todo:
                if s1 is None:
                    continue
                s1.ghost[('out', name)] = e.seq(list(self.out(s1, name).a) + list(data.a))
                s1.emit('write', name, buf if e.poll_mode else data, n, ctx['fn'], ctx['sp'], ctx['fid'], ctx['bb'])
                res.append((s1, 'ok', n))
            s2, er = self.ioerr(st, 'write:' + name, ctx)
            res.append((s2, 'err', er))
            if e.poll_mode:
                s3 = st.copy()
                s3.emit('pending', name)
                res.append((s3, 'pending', None))
            return res
        if k in ('enc', 'symenc'):
            s1 = st.copy()
            s1.nio += 1
            if k == 'symenc':
                n = S('w#%d' % s1.nio, 0, POSMAX)
                s1 = s1.assume(le(n, L))
                if not e.poll_mode:
                    n = L
                s1.emit('encwrite', v.a[0], buf, n)
                res = [(s1, 'ok', n)]
            else:
                n = L
                if e.poll_mode:
                    n = S('w#%d' % s1.nio, 0, POSMAX)
                    s1 = s1.assume(le(n, L))
                fed = v.a[1][2]
                e.wr(s1, r, Obj('enc', (v.a[1][0], v.a[1][1], e.seq(list(fed.a) + list(e.seq_slice(s1, buf, ZERO, n).a)), v.a[1][3]), v.a[2]))
                s1.emit('encwrite', v.a[2], buf, n)
                res = [(s1, 'ok', n)]
            if not self.infallible(st, v):
                s2, er = self.ioerr(st, 'encode', ctx)
                res.append((s2, 'err', er))
            if e.poll_mode:
                s3 = st.copy()
                s3.emit('pending', 'enc')
                res.append((s3, 'pending', None))
            return res
        if k == 'Cursor':
            d = self.cursor_data(st, v)
            if d is None:
                return None
            pos = v.a[1][1]
            if not e.need(st, eq(pos, e.seq_len(d))):
                return None
            dr = v.a[1][0]
            new = e.seq(list(d.a) + list(buf.a))
            if dr.k == 'seq':
                e.wr(st, self.fld(r, 0), new)
            else:
                e.wr(st, dr, new)
            e.wr(st, self.fld(r, 1), add(pos, L))
            return [(st, 'ok', L)]
        if k == 'mem':
            e.wr(st, r, e.seq(list(v.a) + list(buf.a)))
            return [(st, 'ok', L)]
        if k == 'local':
            inst = self.local_impl(v, 'AsyncWrite', 'poll_write')
            if inst is None:
                return None
            outs = self.call_impl(inst, [self.pin(r), Ref(('sym', 'cx', None)), bufref], st, dict(ctx, sub=depth + 11))
            return None if outs is None else self.unpoll(outs)
        return None

    def infallible(self, st, v):
        from engine import Fork
        if v.k != 'obj':
            return False
        x = v.a[1][0]
        if not isinstance(x, E) and x.k in ('ref', 'agg'):
            try:
                x = self.obj(st, x)[1]
            except (Fork, KeyError):
                return False
            if x is None:
                return False
        return not isinstance(x, E) and (x.k == 'seq' or (x.k == 'obj' and x.a[0] == 'Cursor'))

    def enc_out(self, v):
        """abstract output bytes of an encoder"""
        fed, lvl = v.a[1][2], v.a[1][1]
        at = 'enc:%s:%s:%d' % (v.a[2], getattr(lvl, 'id', 0), fed.id)
        self.e.atom_ty[at] = self.e.U8
        self.enc_info = getattr(self, 'enc_info', {})
        self.enc_info[at] = (v.a[2], lvl, fed)
        return self.e.seq([('s', at, ZERO, length(at))])

    def do_ctl(self, st, ref, what, ctx, depth=0):
        """poll_flush / poll_close"""
        e = self.e
        r, v = self.obj(st, ref)
        k = self.kind(v)
        if k == 'base':
            name = self.base_name(v)
            s1 = st.copy()
            s1.nio += 1
            s1.emit(what, name, ctx['fn'])
            s2, er = self.ioerr(st, what + ':' + name, ctx)
            res = [(s1, 'ok', self.unit()), (s2, 'err', er)]
            if e.poll_mode:
                s3 = st.copy()
                s3.emit('pending', name)
                res.append((s3, 'pending', None))
            return res
        if k == 'symenc':
            s1 = st.copy()
            s1.nio += 1
            s1.emit(what, v.a[0], ctx['fn'])
            s2, er = self.ioerr(st, what, ctx)
            res = [(s1, 'ok', self.unit()), (s2, 'err', er)]
            if e.poll_mode:
                s3 = st.copy()
                s3.emit('pending', 'enc')
                res.append((s3, 'pending', None))
            return res
        if k == 'enc':
            if what != 'close':
                s1 = st.copy()
                s1.nio += 1
                s1.emit(what, v.a[2])
                if self.infallible(st, v):
                    return [(s1, 'ok', self.unit())]
                s2, er = self.ioerr(st, what, ctx)
                return [(s1, 'ok', self.unit()), (s2, 'err', er)]
            if v.a[1][3] is ONE:
                return [(st, 'ok', self.unit())]
            data = self.enc_out(v)
            cell = ('heap', e.fid('enc', ctx['fid'], ctx['bb']))
            st.mem[cell] = data
            e.wr(st, self.fld(r, 3), ONE)
            # the sink may accept any prefix of the encoder's output before it fails
            n = S('encpre#%d' % (st.nio + 1), 0, POSMAX)
            sp = st.copy()
            sp.nio += 1
            sp = sp.assume(le(n, self.e.seq_len(data)))
            late = []
            if sp is not None:
                pcell = ('heap', e.fid('encp', ctx['fid'], ctx['bb']))
                sp.mem[pcell] = e.seq_slice(sp, data, ZERO, n)
                for o in self.do_write(sp, self.fld(r, 0), Ref(pcell), ctx, depth + 20) or ():
                    if o[1] == 'ok':
                        late += [x for x in self.do_write(o[0], self.fld(r, 0), Ref(cell), ctx, depth + 25) or () if x[1] != 'ok']
            rs = self.do_write(st, self.fld(r, 0), Ref(cell), ctx, depth + 20)
            if rs is None:
                return None
            res = late
            rs = [o for o in rs if o[1] == 'ok' or not late]
            for o in rs:
                if o[1] == 'ok':
                    q = self.do_ctl(o[0], self.fld(r, 0), 'close', dict(ctx, sub=30 + depth), depth + 30)
                    if q is None:
                        return None
                    res += q
                else:
                    res.append(o)
            return res
        if k in ('Cursor', 'mem'):
            return [(st, 'ok', self.unit())]
        if k == 'local':
            inst = self.local_impl(v, 'AsyncWrite', 'poll_' + what)
            if inst is None:
                return None
            outs = self.call_impl(inst, [self.pin(r), Ref(('sym', 'cx', None))], st, dict(ctx, sub=depth + 41))
            return None if outs is None else self.unpoll(outs)
        return None

    def do_seek(self, st, ref, sf, ctx):
        e = self.e
        r, v = self.obj(st, ref)
        k = self.kind(v)
        if not isinstance(sf, E) and sf.k == 'sym':
            return None
        names = [x['n'] for x in e.T(sf.a[0])['variants']] if e.T(sf.a[0])['k'] == 'adt' else ['Start', 'End', 'Current']
        how = names[sf.a[1]]
        off = e.scalar(sf.a[2][0])
        if k == 'base':
            name = self.base_name(v)
            s1 = st.copy()
            s1.nio += 1
            if how == 'Start':
                pos = off
            elif how == 'End':
                pos = add(self.flen(name), off)
            else:
                pos = add(self.rpos(st, name), off)
            s1 = s1.assume(le(ZERO, pos))
            res = []
            if s1:
                s1.ghost[('rpos', name)] = pos
                s1.emit('seek', name, how, off, pos, ctx['fn'])
                res.append((s1, 'ok', pos))
            s2, er = self.ioerr(st, 'seek:' + name, ctx)
            res.append((s2, 'err', er))
            return res
        if k == 'Cursor':
            d = self.cursor_data(st, v)
            if d is None:
                return None
            pos = off if how == 'Start' else add(e.seq_len(d), off) if how == 'End' else add(v.a[1][1], off)
            if not e.need(st, le(ZERO, pos)):
                s2, er = self.ioerr(st, 'seek', ctx)
                return [(s2, 'err', er)]
            e.wr(st, self.fld(r, 1), pos)
            st.emit('seek', 'cursor', how, off, pos, ctx['fn'])
            return [(st, 'ok', pos)]
        return None

    # ------------------------------------------------------------ turning tuples into outcomes
    def finish(self, rs, dty):
        out = []
        for o in rs:
            s, k, v = o
            if k == 'ok':
                out.append(('ret', s, self.ready_ok(dty, v)))
            elif k == 'err':
                out.append(('ret', s, self.ready_err(dty, v)))
            elif k == 'pending':
                out.append(('ret', s, self.pending(dty)))
            elif k == 'panic':
                out.append(v)
        return out

    # ------------------------------------------------------------ registered models
    @K('futures_lite::AsyncReadExt::read', 'futures_lite::AsyncReadExt::read_exact', 'futures_lite::AsyncReadExt::read_to_end',
       'futures_lite::AsyncReadExt::read_to_string', 'futures_lite::AsyncSeekExt::seek', 'futures_lite::AsyncWriteExt::write_all',
       'futures_lite::AsyncWriteExt::write', 'futures_lite::AsyncWriteExt::close', 'futures_lite::AsyncWriteExt::flush')
    def m_fut(self, c, a, st, ctx):
        return self.ret(st, Obj('Fut', a, tail(c)))

    @K('tokio::fs::File::open')
    def m_open(self, c, a, st, ctx):
        return self.ret(st, Obj('Fut', a, 'open'))

    @K('futures_lite::AsyncReadExt::take')
    def m_take(self, c, a, st, ctx):
        return self.ret(st, Obj('Take', (a[0], self.e.scalar(a[1]))))

    @K('futures_lite::io::Take::into_inner')
    def m_take_inner(self, c, a, st, ctx):
        v = a[0]
        if not isinstance(v, E) and v.k == 'obj' and v.a[0] == 'Take':
            return self.ret(st, v.a[1][0])
        return None

    @K('futures_lite::io::Take::limit')
    def m_take_limit(self, c, a, st, ctx):
        r, v = self.obj(st, a[0])
        if self.kind(v) == 'Take':
            return self.ret(st, v.a[1][1])
        return None

    @K('futures_lite::io::Cursor::new')
    def m_cursor(self, c, a, st, ctx):
        return self.ret(st, Obj('Cursor', (a[0], ZERO)))

    @K('futures_lite::io::Cursor::into_inner')
    def m_cursor_inner(self, c, a, st, ctx):
        v = a[0]
        if not isinstance(v, E) and v.k == 'obj' and v.a[0] == 'Cursor':
            return self.ret(st, v.a[1][0])
        return None

    @K('futures_lite::io::Cursor::position')
    def m_cursor_pos(self, c, a, st, ctx):
        r, v = self.obj(st, a[0])
        if self.kind(v) == 'Cursor':
            return self.ret(st, v.a[1][1])
        return None

    @K('tokio_util::compat::TokioAsyncReadCompatExt::compat', 'tokio_util::compat::TokioAsyncWriteCompatExt::compat_write',
       'tokio::io::BufReader::new', 'futures_lite::io::BufReader::new', 'futures_lite::io::BufWriter::new')
    def m_same(self, c, a, st, ctx):
        return self.ret(st, a[0])

    def codec_new(self, c, a, st, ctx):
        kind = [x for x in DECODERS + ENCODERS if '::' + x in c['path']][0]
        if kind in DECODERS:
            return self.ret(st, Obj('dec', (a[0],), kind))
        lvl = a[1] if len(a) > 1 else self.default_level()
        return self.ret(st, Obj('enc', (a[0], lvl, self.e.seq([]), ZERO), kind))

    def default_level(self):
        t = self.e.by_s.get('async_compression::Level')
        v = [i for i, x in enumerate(self.e.T(t)['variants']) if x['n'] == 'Default'] if t is not None else []
        return Agg(t, v[0], ()) if v else Sym('level:default', None)

    def codec_inner(self, c, a, st, ctx):
        v = a[0]
        if not isinstance(v, E) and v.k == 'obj' and v.a[0] in ('dec', 'enc'):
            return self.ret(st, v.a[1][0])
        if not isinstance(v, E) and v.k == 'sym':
            return self.ret(st, self.e.mk_sym(v.a[0] + '.inner', ctx['dty']))
        return None

    def codec_get(self, c, a, st, ctx):
        r, v = self.obj(st, a[0])
        if v is not None and v.k == 'obj' and v.a[0] in ('dec', 'enc') and r is not None:
            return self.ret(st, self.fld(r, 0))
        return None

    @K('futures_lite::AsyncRead::poll_read')
    def m_poll_read(self, c, a, st, ctx):
        rs = self.do_read(st, a[0], a[2], ctx)
        return None if rs is None else self.finish(rs, ctx['dty'])

    @K('futures_lite::AsyncWrite::poll_write')
    def m_poll_write(self, c, a, st, ctx):
        rs = self.do_write(st, a[0], a[2], ctx)
        return None if rs is None else self.finish(rs, ctx['dty'])

    @K('futures_lite::AsyncWrite::poll_write_vectored')
    def m_poll_wv(self, c, a, st, ctx):
        r, v = self.obj(st, a[0])
        k = self.kind(v)
        if k == 'local':
            inst = self.local_impl(v, 'AsyncWrite', 'poll_write_vectored')
            if inst is None:
                return None
            return self.call_impl(inst, a, st, dict(ctx, sub=50))
        if k != 'base':
            return None
        name = self.base_name(v)
        s1 = st.copy()
        s1.nio += 1
        n = S('w#%d' % s1.nio, 0, POSMAX)
        s1.emit('writev', name, a[2], n)
        at = 'wv#%d' % s1.nio
        self.e.atom_ty[at] = self.e.U8
        s1.ghost[('out', name)] = self.e.seq(list(self.out(s1, name).a) + [('s', at, ZERO, n)])
        s2, er = self.ioerr(st, 'writev:' + name, ctx)
        s3 = st.copy()
        s3.emit('pending', name)
        return self.finish([(s1, 'ok', n), (s2, 'err', er), (s3, 'pending', None)], ctx['dty'])

    @K('futures_lite::AsyncWrite::poll_flush')
    def m_poll_flush(self, c, a, st, ctx):
        rs = self.do_ctl(st, a[0], 'flush', ctx)
        return None if rs is None else self.finish(rs, ctx['dty'])

    @K('futures_lite::AsyncWrite::poll_close')
    def m_poll_close(self, c, a, st, ctx):
        rs = self.do_ctl(st, a[0], 'close', ctx)
        return None if rs is None else self.finish(rs, ctx['dty'])

    @K('futures_lite::AsyncBufRead::poll_fill_buf')
    def m_fill(self, c, a, st, ctx):
        r, v = self.obj(st, a[0])
        k = self.kind(v)
        if k == 'local':
            inst = self.local_impl(v, 'AsyncBufRead', 'poll_fill_buf')
            return None if inst is None else self.call_impl(inst, a, st, dict(ctx, sub=51))
        if k != 'base':
            return None
        name = self.base_name(v)
        s1 = st.copy()
        s1.nio += 1
        s1.emit('fill', name)
        at = 'fill#%d:%s' % (s1.nio, name)
        self.e.atom_ty[at] = self.e.U8
        s2, er = self.ioerr(st, 'fill:' + name, ctx)
        s3 = st.copy()
        s3.emit('pending', name)
        return self.finish([(s1, 'ok', Ref(('const', Seq([('s', at, ZERO, length(at))])))), (s2, 'err', er),
                            (s3, 'pending', None)], ctx['dty'])

    @K('futures_lite::AsyncBufRead::consume')
    def m_consume(self, c, a, st, ctx):
        r, v = self.obj(st, a[0])
        k = self.kind(v)
        if k == 'local':
            inst = self.local_impl(v, 'AsyncBufRead', 'consume')
            return None if inst is None else self.call_impl(inst, a, st, dict(ctx, sub=52))
        if k != 'base':
            return None
        st.nio += 1
        st.emit('consume', self.base_name(v), a[1])
        return self.ret(st, self.unit())

    @K('futures_lite::Future::poll', 'std::future::Future::poll')
    def m_poll(self, c, a, st, ctx):
        e = self.e
        r, v = self.obj(st, a[0])
        if v is None:
            return None
        dty = ctx['dty']
        if v.k == 'obj' and v.a[0] == 'Fut':
            k, args = v.a[2], v.a[1]
            if k == 'read':
                rs = self.do_read(st, args[0], args[1], ctx)
            elif k == 'read_exact':
                rs = self.do_read_exact(st, args[0], args[1], ctx)
            elif k == 'read_to_end':
                rs = self.do_read_to_end(st, args[0], args[1], ctx)
            elif k == 'read_to_string':
                rs = self.do_read_to_end(st, args[0], args[1], ctx, True)
            elif k == 'seek':
                rs = self.do_seek(st, args[0], args[1], ctx)
            elif k in ('write_all', 'write'):
                self.one_write = k == 'write' and not e.poll_mode
                rs = self.do_write(st, args[0], args[1], ctx)
                self.one_write = False
                if rs is not None and k == 'write_all':
                    rs = self._write_all_fix(rs, args, ctx)
            elif k in ('close', 'flush'):
                rs = self.do_ctl(st, args[0], k, ctx)
            elif k == 'open':
                s1 = st.copy()
                s1.nio += 1
                pv = args[0]
                for _ in range(3):
                    if not isinstance(pv, E) and pv.k == 'ref':
                        pv = e.rd(st, pv)
                name = 'file#%d' % s1.nio
                s1.emit('open', name, pv)
                s1.ghost[('rpos', name)] = ZERO
                s2, er = self.ioerr(st, 'open', ctx)
                rs = [(s1, 'ok', Sym(name, None)), (s2, 'err', er)]
            else:
                rs = None
            if rs is None:
                e.unknown['io:' + str(k)] = e.unknown.get('io:' + str(k), 0) + 1
                return None
            return [o for o in self.finish(rs, dty)]
        t = e.T(v.a[0]) if v.k == 'agg' else None
        if t is not None and t['k'] == 'coroutine' and t.get('inst') is not None:
            sub_f = e.fid(ctx['fid'], ctx['bb'], t['inst'])
            ct = e.co_contracts.get(t['inst'])
            outs = ct(v.a[2], st, dict(ctx, fid=sub_f)) if ct is not None else None
            if outs is None:
                outs = e.run_fn(t['inst'], [v, Sym('resume', None)], st, sub_f)
            if outs is None:
                return None
            return [('ret', o[1], self.ready(dty, o[2])) if o[0] == 'ret' else o for o in outs]
        return None

    def _write_all_fix(self, rs, args, ctx):
        e = self.e
        out = []
        for o in rs:
            if o[1] != 'ok':
                if o[1] != 'pending':
                    out.append(o)
                continue
            s, n = o[0], o[2]
            _, buf = self.seqof(s, args[1])
            if isinstance(n, E) and buf is not None and s.facts.decide(eq(n, e.seq_len(buf))) is True:
                out.append((s, 'ok', self.unit()))
            else:
                s.emit('shortwrite', n)
                out.append((s, 'ok', self.unit()))
        return out


for _n in DECODERS:
    p = 'async_compression::futures::bufread::%s::' % _n
    IoModels.codec_new._keys = getattr(IoModels.codec_new, '_keys', ()) + (p + 'new',)
    IoModels.codec_inner._keys = getattr(IoModels.codec_inner, '_keys', ()) + (p + 'into_inner',)
    IoModels.codec_get._keys = getattr(IoModels.codec_get, '_keys', ()) + (p + 'get_mut', p + 'get_ref', p + 'get_pin_mut')
for _n in ENCODERS:
    p = 'async_compression::futures::write::%s::' % _n
    IoModels.codec_new._keys += (p + 'new', p + 'with_quality')
    IoModels.codec_inner._keys += (p + 'into_inner',)
    IoModels.codec_get._keys += (p + 'get_mut', p + 'get_ref', p + 'get_pin_mut')
