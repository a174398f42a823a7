"""Rules on the reading side, evaluated on every abstract outcome of the public reading operations."""
from rulelib import *
from scen import result_parts, nname

LFH, CDH, EOCDR, Z64E, Z64L, DESC = 0x04034b50, 0x02014b50, 0x06054b50, 0x06064b50, 0x07064b50, 0x08074b50
B = 'base::read::'
ST = B + 'stream::ZipFileReader::'
SK = B + 'seek::ZipFileReader::'
EN = B + 'io::entry::ZipEntryReader::'
METHOD = {0: 'Stored', 8: 'Deflate', 9: 'Deflate64', 12: 'Bz', 14: 'Lzma', 93: 'Zstd', 95: 'Xz'}
DECODER = {'Deflate': 'DeflateDecoder', 'Deflate64': 'Deflate64Decoder', 'Bz': 'BzDecoder', 'Lzma': 'LzmaDecoder', 'Zstd': 'ZstdDecoder',
           'Xz': 'XzDecoder', 'Stored': None}


def le_at(pos, off, n, atom='F:R'):
    """little-endian number of n bytes at source position pos+off"""
    return cat_bytes([elem(atom, add(pos, C(off + i))) for i in range(n)])


def nodes(v, path=()):
    """all sub-values with their ancestors, outermost first"""
    yield v, path
    if isinstance(v, E):
        return
    kids = v.a[2] if v.k == 'agg' else v.a[1] if v.k == 'obj' else ()
    for c in kids:
        for x in nodes(c, path + (v,)):
            yield x


class RS:
    def __init__(self, R, nx=None, poll=False):
        self.R = R
        self.s = Sc(poll)
        self.e = self.s.e
        self.nx = nx
        use_extra_parser_contract(self.s, nx)
        self.e.max_steps = 6000000
        if nx:
            self.e.unroll_backs = 40

    # ------------------------------------------------------------------ sources
    def source(self, name='R', pos='R.pos0'):
        """a state with an unread source of unknown bytes, unknown length and position"""
        P = S(pos, 0, 1 << 62)
        st = State()
        st.ghost[('rpos', name)] = P
        st.facts = st.facts.assume(le(P, length('F:' + name)))
        return st, P

    def rpos(self, st, name='R'):
        return st.ghost.get(('rpos', name))

    # ------------------------------------------------------------------ generic obligations
    def outcome(self, o, what, panic_ok=False):
        """obligations every outcome of a reading operation has: no panic, errors reported, allocations bounded"""
        R, e = self.R, self.e
        if o[0] != 'ret':
            p = o[2]
            st = o[1]
            msg = '%s: %s (condition %s)' % (what, p['kind'], str(p.get('cond'))[:160])
            ok = None
            if not panic_ok:
                ok = None if (st.lossy or not self.cond_clean(p.get('cond'), st, p.get('ops'))) else False
            where = '%s %s' % (p['fn'], p['sp'])
            if not p.get('local') and p.get('fid') is not None:
                where = e.site(p['fid'], p.get('bb'))
            ub = str(p['kind']).startswith('ub:')
            R.ob('C37' if ub else 'C01', 'no-undefined-behaviour' if ub else 'no-panic', ok, where, msg)
            return False
        st, v = o[1], o[2]
        R.ob('C01', 'no-panic', True, what, '%s returns' % what)
        errs = [ev for ev in st.events() if ev[0] == 'ioerr']
        if errs:
            ok = is_err(v) and (self.carries(v, errs) or None if not clean(v) else self.carries(v, errs))
            what_ = errs[0][1].split(':', 1)[1]
            pid = 'C27' if what_.startswith('eof') else 'C24'
            if pid == 'C27':
                R.ob('C27', 'short-source-is-error', is_err(v) or (None if st.lossy else False), e.site(errs[0][4], errs[0][5]), '%s: a source that ends early %s' % (
                    what, 'is an error' if is_err(v) else 'does not lead to an error'))
            else:
                R.ob('C24', 'source-error-reported', ok, e.site(errs[0][4], errs[0][5]), '%s: a failing %s %s' % (
                    what, what_, 'is reported in the returned error' if ok else 'does not reach the caller (returned %s)' % str(v)[:80]))
        for ev in st.events():
            if ev[0] == 'alloc':
                self.alloc(st, ev, what)
            elif ev[0] == 'unchecked':
                self.unchecked(st, ev, what)
            elif ev[0] == 'ubok':
                R.ob('C37', 'no-undefined-behaviour', True, '%s %s' % (ev[2], ev[3]), '%s: precondition of %s holds' % (what, ev[1]))
        return True

    def carries(self, v, errs):
        names = {ev[1] for ev in errs}
        return contains(v, lambda x: not isinstance(x, E) and x.k == 'sym' and x.a[0] in names)

    def cond_clean(self, c, st, ops=None):
        return cond_clean(self.e, c, st, ops)

    def alloc(self, st, ev, what):
        n = ev[1]
        if not isinstance(n, E):
            return
        hi = st.facts.range(n)[1]
        ok = hi <= 65536
        if not ok:
            # bounded by bytes actually held
            for L in self.held(st):
                if st.facts.decide(le(n, mulc(L, 4))) is True:
                    ok = True
                    break
        if not ok and (st.lossy or not clean_term(n)):
            ok = None
        self.R.ob('C02', 'allocation-bounded', ok, '%s %s' % (ev[2], ev[3]), '%s: reserves %s' % (what, show(n)[:120]))

    def held(self, st):
        return [length(n) for n in ('data', 'F:R')]

    def unchecked(self, st, ev, what):
        v, facts = ev[1], ev[2]
        if isinstance(v, E) or v.k != 'seq':
            self.R.ob('C19', 'unchecked-text-validated', None, '%s %s' % (ev[3], ev[4]), 'value not understood')
            return
        ok = not v.a or any(facts.decide(uf(p, (v,), 0, 1)) is True for p in ('utf8', 'ascii'))
        if not ok:
            ok = None if st.lossy or looped(st) or not clean(v) else False
        self.R.ob('C19', 'unchecked-text-validated', ok, '%s %s' % (ev[3], ev[4]), '%s: text built without validation from %s' % (what, str(v)[:100]))

    # ------------------------------------------------------------------ values through the public accessors
    def ac(self, st, name, val):
        """[(state, dereferenced value)]"""
        if isinstance(val, E) or val.k != 'ref':
            return [(x, v) for x, v in acc(self.s, name, val, st)]
        return [(x, v) for x, v in callv(self.s, name, [val], st)]

    def field(self, pid, rule, st, name, ref, want, what, where, conv=None):
        for st1, v in self.ac(st, name, ref):
            v = deref(self.e, st1, v)
            if conv:
                v = conv(v)
            if v is None:
                self.R.ob(pid, rule, None, where, what)
                continue
            alts = want if isinstance(want, tuple) else (want,)
            want = alts[0]
            rr = [same(st1, v, w) for w in alts] if isinstance(v, E) else [None]
            r = True if True in rr else None if None in rr else False
            self.R.ob(pid, rule, r, where, '%s: %s is %s, the record says %s' % (what, name.split('::')[-1], str(v)[:120], show(want)[:120]))

    def span(self, name):
        i = self.s.find(name)
        return '%s %s' % (name, i.get('span') or '')

    def date(self, st, entry, d, t, what, where):
        """the reported modification date and time are the record's two fields"""
        D = 'date::ZipDateTime::'
        yr = add(slc(d, 9, 7), C(1980))
        for st1, dt in self.ac(st, 'entry::ZipEntry::last_modification_date', entry):
            for n, want in (('year', yr), ('month', slc(d, 5, 4)), ('day', slc(d, 0, 5)), ('hour', slc(t, 11, 5)), ('minute', slc(t, 5, 6)), ('second', (shl(slc(t, 0, 5), 1, 8), mulc(slc(t, 0, 5), 2)))):
                self.field('C06', 'date-time', st1, D + n, dt, want, what, where)

    def meta(self, st, entry, what, where, P, rec, raw_name=None, raw_comment=None, central=True):
        """metadata obligations for an entry parsed from the record at P; rec gives field offsets"""
        Z = 'entry::ZipEntry::'
        R = self.R
        f = lambda k: le_at(P, *rec[k])
        self.field('C06', 'crc32', st, Z + 'crc32', entry, f('crc'), what, where)
        self.date(st, entry, f('date'), f('time'), what, where)
        if central:
            self.field('C06', 'internal-attribute', st, Z + 'internal_file_attribute', entry, f('iattr'), what, where)
            self.field('C06', 'external-attribute', st, Z + 'external_file_attribute', entry, f('eattr'), what, where)
        # method
        for st1, m in self.ac(st, Z + 'compression', entry):
            m = deref(self.e, st1, m)
            n = variant(self.e, m, st1)
            num = {v: k for k, v in METHOD.items()}.get(n)
            r = None if n is None else same(st1, f('method'), C(num)) if num is not None else None
            R.ob('C06', 'compression', r, where, '%s: reported method %s for record number %s' % (what, n, show(f('method'))))
            R.ob('C15', 'number-of-method', r, where, '%s: method number %s read back as %s' % (what, show(f('method')), n))
        # extra fields
        xev = [ev for ev in st.events() if ev[0] == 'xparse']
        if len(xev) == 1 and R.want('C06'):
            x = xev[0][3]
            want = Seq([('s', x, ZERO, length(x))]) if self.nx is None else Seq([('e', y) for y in self.xlist(st)[0]])
            for st1, l in self.ac(st, Z + 'extra_fields', entry):
                _, ls = self.s.M.seqof(st1, l)
                R.ob('C06', 'extra-fields', seq_same(self.e, st1, ls, want) if ls is not None else None, where, '%s: extra_fields() is %s' % (what, str(ls)[:100]))
        # sizes
        self.sizes(st, entry, what, where, f)
        # text
        self.text(st, entry, 'filename', raw_name, 'InfoZipUnicodePath', slc(f('flags'), 11, 1), what, where)
        if raw_comment is not None:
            self.text(st, entry, 'comment', raw_comment, 'InfoZipUnicodeComment', slc(f('flags'), 11, 1), what, where)

    def xlist(self, st):
        """fields returned by the extra-field parser in this state"""
        evs = [ev for ev in st.events() if ev[0] == 'xparse']
        if len(evs) != 1 or self.nx is None:
            return None, evs
        ev = evs[0]
        el = self.e.atom_ty[ev[3]]
        return [Sym('%s.%d' % (ev[3], k), el) for k in range(self.nx)], evs

    def split(self, st, xs):
        """fork until the variant of every field is known -> [(state, [(name, value)])]"""
        res = [(st, [])]
        for x in xs:
            nxt = []
            for s1, acc_ in res:
                for s2, n, v in fork_variant(self.e, x, s1):
                    nxt.append((s2, acc_ + [(n, v)]))
            res = nxt
        return res

    def opt(self, st, v):
        """[(state, None | payload)] of an Option value"""
        return [(s1, None if n == 'None' else deref(self.e, s1, a.a[2][0])) for s1, n, a in fork_variant(self.e, v, st)]

    def sizes(self, st, entry, what, where, f):
        """C05: 64-bit values replace exactly the saturated 32-bit fields"""
        R, e = self.R, self.e
        xs, evs = self.xlist(st)
        for ev in evs:
            a = [x for x in ev[2] if isinstance(x, E)]
            if len(a) >= 2:
                ok = same(st, a[0], f('usize')), same(st, a[1], f('csize'))
                ok = True if ok == (True, True) else None if None in ok else False
                R.ob('C05', 'parser-told-own-sizes', ok, where, '%s: the extra fields are parsed with the sizes of the same record (%s, %s)' % (what, show(a[0])[:60], show(a[1])[:60]))
        if xs is None or not R.want('C05', 'C06'):
            return
        for st1, vs in self.split(st, xs):
            z = [v for n, v in vs if 'Zip64' in n]
            for nm, acc_, key in (('uncompressed_size', 'entry::ZipEntry::uncompressed_size', 'usize'), ('compressed_size', 'entry::ZipEntry::compressed_size', 'csize')):
                for st2, got in self.ac(st1, acc_, entry):
                    got = deref(e, st2, got)
                    if not z:
                        R.ob('C05', nm.replace('_', '-'), same(st2, got, f(key)), where, '%s: %s without a zip64 field is %s, the 32-bit field is %s' % (what, nm, str(got)[:100], show(f(key))))
                        continue
                    fv = self.named(z[0].a[2][0], nm)
                    if fv is None:
                        R.ob('C05', nm.replace('_', '-'), None, where, 'zip64 field has no %s' % nm)
                        continue
                    for st3, val in self.opt(st2, fv):
                        want = f(key) if val is None else val
                        R.ob('C05', nm.replace('_', '-'), same(st3, got, want), where, '%s: %s is %s, expected %s' % (what, nm, str(got)[:100], show(want)[:100]))

    def named(self, v, name):
        """field of a public structure by name"""
        e = self.e
        t = e.T(v.a[0] if v.k == 'agg' else v.a[1])
        if t['k'] != 'adt':
            return None
        if v.k == 'sym':
            v = e.expand(v, 0)
        fs = t['variants'][v.a[1]]['f']
        for i, x in enumerate(fs):
            if x.get('n') == name:
                return v.a[2][i]
        return None

    def text(self, st, entry, which, raw, kind, flag, what, where):
        """C20/C06/C19: the reported text is the one the flag and the Unicode fields select"""
        R, e = self.R, self.e
        if not R.want('C20', 'C06', 'C19'):
            return
        xs, _ = self.xlist(st)
        u = lambda p, s_: uf(p, (s_,), 0, 1)
        for st1, zs in self.ac(st, 'entry::ZipEntry::' + which, entry):
            for fl in (1, 0):
                st2 = st1.assume(eq(flag, C(fl)))
                if st2 is None:
                    continue
                for st3, vs in (self.split(st2, xs) if (xs is not None and not fl) else [(st2, [])]):
                    combos = [(st3, [])]
                    for n, v in vs:
                        if n == kind:
                            nxt = []
                            for s4, c in combos:
                                for s5, vn, iv in fork_variant(e, v.a[2][0], s4):
                                    nxt.append((s5, c + [(self.named(iv, 'crc32'), self.named(iv, 'unicode'))] if vn == 'V1' else c))
                            combos = nxt
                    for s4, cands in combos:
                        self.text_value(s4, zs, which, raw, fl, cands, xs is None and not fl, what, where)

    def text_value(self, st, zs, which, raw, fl, cands, unknown, what, where):
        R, e = self.R, self.e
        T = 'string::ZipString::'
        u = lambda p, s_: uf(p, (s_,), 0, 1)
        for st1, b in self.ac(st, T + 'as_bytes', zs):
            _, bs = self.s.M.seqof(st1, b)
            for st2, en in self.ac(st1, T + 'encoding', zs):
                en = variant(e, deref(e, st2, en), st2)
                for st3, al in self.ac(st2, T + 'alternative', zs):
                    for st4, alt in self.opt(st3, al):
                        if alt is not None and alt.k != 'seq':
                            _, alt = self.s.M.seqof(st4, alt)
                        if bs is None or en is None:
                            R.ob('C20', which + '-decoding', None, where, '%s: %s is not understood' % (what, which))
                            continue
                        self.text_judge(st4, bs, en, alt, which, raw, fl, cands, unknown, what, where)

    def text_judge(self, st, bs, en, alt, which, raw, fl, cands, unknown, what, where):
        R, e = self.R, self.e
        dec = lambda c: st.facts.decide(c)
        u = lambda p, s_: uf(p, (s_,), 0, 1) if s_.a else TRUE
        # C19: Utf8 encoding only on validated bytes
        if en == 'Utf8':
            ok = any(dec(u(p, bs)) is True for p in ('utf8', 'ascii'))
            R.ob('C19', 'utf8-is-validated', ok or (None if st.lossy or looped(st) or not clean(bs) else False), where, '%s: %s marked UTF-8 with bytes %s' % (what, which, str(bs)[:100]))
        israw = seq_same(e, st, bs, raw)
        shown = '%s: %s is %s as %s alternative %s' % (what, which, str(bs)[:110], en, str(alt)[:80])
        if fl:
            R.ob('C06', which + '-bytes', israw, where, shown)
            if israw:
                valid = dec(u('utf8', bs))
                if valid is None and dec(u('ascii', bs)) is True:
                    valid = True
                exp = (en == 'Utf8') if valid is True else (en == 'Raw') if valid is False else None
                R.ob('C20', which + '-flagged-utf8', (exp and alt is None) if exp is not None else None, where, shown + ' (flag set)')
            return
        if unknown:
            return
        if alt is not None:
            # taken from a Unicode field
            ok = False
            for crc, uni in cands:
                st1 = st
                _, un = self.s.M.seqof(st1, uni)
                if un is None:
                    ok = None
                    continue
                if seq_same(e, st1, bs, un) is True:
                    a = same(st1, crc, uf('crc', (raw,), 0, (1 << 32) - 1)) if isinstance(crc, E) else None
                    if a is True and st1.facts.decide(u('utf8', un)) is True:
                        ok = True
                    elif ok is False:
                        ok = None if a is None or st1.lossy else False
            R.ob('C20', which + '-from-unicode-field', ok if not (ok is False and (st.lossy or not clean(bs))) else None, where, shown + ' is not backed by a matching Unicode field' if not ok else shown)
            r = seq_same(e, st, alt, raw)
            R.ob('C20', which + '-alternative-is-stored-bytes', r, where, shown)
            R.ob('C06', which + '-bytes', r, where, shown)
            R.ob('C20', which + '-unicode-encoding', en == 'Utf8', where, shown)
            return
        R.ob('C06', which + '-bytes', israw, where, shown)
        # not taken from a field: no field may have matched
        cur = st
        for crc, uni in cands:
            _, un = self.s.M.seqof(cur, uni)
            if un is None or not isinstance(crc, E) or not raw.a:
                break
            match = eq(crc, uf('crc', (raw,), 0, (1 << 32) - 1))
            st2 = cur.assume(match)
            if st2 is not None and un.a:
                st2 = st2.assume(u('utf8', un))
            # st2: a state in which the field matches but was not used
            R.ob('C20', which + '-unicode-field-used', True if st2 is None else (None if st2.lossy else False), where, shown + ' although a matching Unicode field is present' if st2 is not None else shown)
            cur = cur.assume(not_(match))
            if cur is None:
                break
        if israw:
            asc = dec(u('ascii', bs))
            if asc is None and dec(u('utf8', bs)) is False:
                asc = False
            exp = (en == 'Utf8') if asc is True else (en == 'Raw') if asc is False else None
            if exp is None and not st.lossy and not looped(st) and clean(bs):
                # nothing on this path says whether the text is ASCII, yet its encoding is fixed
                exp = False
            R.ob('C20', which + '-unflagged', exp, where, shown + ' (flag clear)')


def looped(st):
    """a summarised loop ran after the last read: it may have examined the text byte by byte"""
    for ev in reversed(st.events()):
        if ev[0] == 'loop':
            return True
        if ev[0] in ('read', 'xparse'):
            return False
    return False


LREC = dict(flags=(6, 2), method=(8, 2), time=(10, 2), date=(12, 2), crc=(14, 4), csize=(18, 4), usize=(22, 4), nlen=(26, 2), xlen=(28, 2))
CREC = dict(flags=(8, 2), method=(10, 2), time=(12, 2), date=(14, 2), crc=(16, 4), csize=(20, 4), usize=(24, 4), nlen=(28, 2), xlen=(30, 2), clen=(32, 2),
            disk=(34, 2), iattr=(36, 2), eattr=(38, 4), off=(42, 4))


def chain(v, base='R'):
    """adapters between an entry reader and its source: (found, limits, decoders)"""
    for x, path in nodes(v):
        if not isinstance(x, E) and x.k == 'sym' and x.a[0] == base:
            lim = [p.a[1][1] for p in path if p.k == 'obj' and p.a[0] == 'Take']
            dec = [p.a[2] for p in path if p.k == 'obj' and p.a[0] == 'dec']
            return True, lim, dec
    return False, [], []


def fam_state(st, rec, P, fam):
    """restrict the record to a family of headers (split so that each run stays small)"""
    b = lambda k, n=1: le_at(P, k, n)
    fl = le_at(P, *rec['flags'])
    if fam == 'utf8':
        return st.assume(eq(slc(fl, 11, 1), ONE))
    if fam == 'text':
        st = st.assume(eq(slc(fl, 11, 1), ZERO))
        st = st.assume(eq(le_at(P, *rec['method']), ZERO))
        for k in ('usize', 'csize') + (('off',) if 'off' in rec else ()):
            st = st.assume(eq(elem('F:R', add(P, C(rec[k][0]))), ONE))
        return st
    return st


def run_stream(R, nx=None, fam='utf8', ops=('next_with_entry', 'next_without_entry'), ctor='new'):
    """the streaming reader's step to the next entry, on any source"""
    rs = RS(R, nx)
    s, e = rs.s, rs.e
    for op in ops:
        st, P = rs.source()
        st = fam_state(st, LREC, P, fam)
        (st, z), = callv(s, ST + ctor, [Sym('R', s.argty(ST + ctor, 1))], st)
        where = rs.span(ST + op)
        what = 'stream %s' % op
        for o in s.call(ST + op, [z], st):
            R.count('outcomes')
            if not rs.outcome(o, what):
                continue
            st1, v = o[1], o[2]
            if is_err(v):
                stream_error(rs, st1, v, P, what, where)
                continue
            ov = v.a[2][0]
            for st2, n, av in fork_variant(e, ov, st1):
                if n == 'None':
                    stream_end(rs, st2, P, what, where)
                else:
                    stream_entry(rs, st2, av.a[2][0], P, what, where, op)
    R.analysed(e)
    return rs


def stream_end(rs, st, P, what, where):
    sig = le_at(P, 0, 4)
    ok = any(same(st, sig, C(x)) is True for x in (CDH, EOCDR, Z64E))
    if not ok:
        ok = None if st.lossy else False
    rs.R.ob('C25', 'end-only-at-directory', ok, where, '%s: reports no more entries' % what)
    rs.R.ob('C03', 'end-only-at-directory', ok, where, '%s: reports no more entries without a directory or end record signature' % what if not ok else what)


def stream_error(rs, st, v, P, what, where):
    R, e = rs.R, rs.e
    n = variant(e, v.a[2][0], st)
    if n == 'CompressionNotSupported':
        pay = v.a[2][0]
        num = pay.a[2][0] if pay.k == 'agg' and pay.a[2] else None
        m = le_at(P, *LREC['method'])
        ok = same(st, num, m) if isinstance(num, E) else None
        R.ob('C15', 'refusal-names-method', ok, where, '%s: refused method number %s' % (what, show(num) if isinstance(num, E) else num))
        known = [k for k in METHOD if st.assume(eq(m, C(k))) is not None]
        R.ob('C15', 'known-method-accepted', not known or (None if st.lossy else False), where, '%s: method %s refused' % (what, known))


def stream_entry(rs, st, rd, P, what, where, op):
    R, e, s = rs.R, rs.e, rs.s
    f = lambda k: le_at(P, *LREC[k])
    n, m = f('nlen'), f('xlen')
    end = add(add(P, C(30)), add(n, m))
    R.ob('C03', 'signature-verified', same(st, le_at(P, 0, 4), C(LFH)), where, '%s: an entry is returned although the signature is not established' % what)
    R.ob('C25', 'positioned-at-data', same(st, rs.rpos(st), end) if rs.rpos(st) is not None else None, where, '%s: source position after the header is %s, the data starts at %s' % (what, show(rs.rpos(st)), show(end)))
    R.ob('C27', 'header-complete', holds(st, le(end, length('F:R'))), where, '%s: an entry is returned although the header may be incomplete' % what)
    # unsupported features
    fl = f('flags')
    R.ob('C18', 'encrypted-refused', same(st, slc(fl, 0, 1), ZERO), where, '%s: an entry is returned although the encryption flag may be set' % what)
    dd = slc(fl, 3, 1)
    c = and_(eq(dd, ONE), eq(f('method'), ZERO))
    R.ob('C18', 'stored-with-descriptor-refused', True if st.assume(c) is None else None if st.lossy else False, where, '%s: a stored entry with a data descriptor is accepted' % what)
    known = or_chain([eq(f('method'), C(k)) for k in METHOD])
    R.ob('C18', 'unknown-method-refused', any(same(st, f('method'), C(k)) is True for k in METHOD) or (None if st.lossy else False), where, '%s: an entry of an unknown method is accepted' % what)
    # the entry reader
    found, lims, decs = chain(rd)
    mname = next((METHOD[k] for k in METHOD if same(st, f('method'), C(k)) is True), None)
    decoder(rs, found, decs, mname, what, where)
    raw = e.seq([('s', 'F:R', add(P, C(30)), n)])
    for st1, r in acc(s, ST + 'reader', rd, st):
        entries = callv(s, EN + 'entry', [r], st1) if op == 'next_with_entry' else []
        for st2, en in entries:
            rs.meta(st2, en, what, where, P, LREC, raw, None, central=False)
            for st3, dv in [(st2, None)]:
                cs = [deref(e, x, y) for x, y in rs.ac(st2, 'entry::ZipEntry::compressed_size', en)]
                limit(rs, st2, found, lims, dd, cs[0] if cs else None, what, where)
        if not entries and rs.nx is not None:
            xs, _ = rs.xlist(st1)
            for st2, vs in rs.split(st1, xs):
                z = [v for nm, v in vs if 'Zip64' in nm]
                want = [(st2, None)]
                if z:
                    fv = rs.named(z[0].a[2][0], 'compressed_size')
                    want = rs.opt(st2, fv) if fv is not None else []
                for st3, w in want:
                    limit(rs, st3, found, lims, dd, f('csize') if w is None else w, what, where)


def or_chain(cs):
    r = cs[0]
    for c in cs[1:]:
        r = or_(r, c)
    return r


def decoder(rs, found, decs, mname, what, where):
    R = rs.R
    if not found or mname is None:
        R.ob('C15', 'decoder-of-method', None, where, '%s: entry reader not understood' % what)
        return
    want = DECODER[mname]
    ok = (decs == [] if want is None else len(decs) == 1 and decs[0] == want)
    R.ob('C15', 'decoder-of-method', ok, where, '%s: method %s is decoded by %s' % (what, mname, decs))
    R.ob('C16', 'decoder-of-method', ok, where, '%s: method %s is decoded by %s' % (what, mname, decs))


def limit(rs, st, found, lims, dd, csize, what, where):
    """an entry without data descriptor is bounded by its compressed size, one with is not bounded"""
    R = rs.R
    if not found or csize is None or not isinstance(csize, E):
        R.ob('C25', 'bounded-by-compressed-size', None, where, what)
        return
    for bit in (0, 1):
        st1 = st.assume(eq(dd, C(bit)))
        if st1 is None:
            continue
        if bit == 0:
            rs_ = [same(st1, l, csize) for l in lims]
            ok = True if True in rs_ else None if None in rs_ else False
            for pid in ('C25', 'C16'):
                R.ob(pid, 'bounded-by-compressed-size', ok, where, '%s: entry data bounded by %s, compressed size %s' % (what, [show(x)[:60] for x in lims], show(csize)[:80]))
        else:
            ok = all(same(st1, l, C((1 << 64) - 1)) is not False for l in lims)
            R.ob('C25', 'descriptor-entry-unbounded', ok, where, '%s: entry with data descriptor bounded by %s' % (what, [show(x)[:60] for x in lims]))


def reading(rs, op, method, dd):
    """states right after the streaming reader opened an entry of that method with / without data descriptor"""
    s, e = rs.s, rs.e
    st, P = rs.source()
    (st, z), = callv(s, ST + 'new', [Sym('R', s.argty(ST + 'new', 1))], st)
    fl = le_at(P, *LREC['flags'])
    for c in (eq(slc(fl, 11, 1), ONE), eq(le_at(P, *LREC['method']), C(method)), eq(slc(fl, 3, 1), C(dd)), eq(slc(fl, 0, 1), ZERO)):
        st = st.assume(c)
    for k in ('usize', 'csize'):
        st = st.assume(eq(elem('F:R', add(P, C(LREC[k][0]))), ONE))
    res = []
    for st1, v in callv(s, ST + op, [z], st):
        if is_ok(v):
            for st2, n, av in fork_variant(e, v.a[2][0], st1):
                if n == 'Some':
                    res.append((st2, av.a[2][0]))
    return res, P


def run_stream_finish(R, ops=('done', 'skip'), methods=(0, 8, 9, 12, 14, 93, 95), opens=('next_without_entry', 'next_with_entry')):
    """finishing or skipping an entry of the streaming reader"""
    rs = RS(R, 0)
    s, e = rs.s, rs.e
    for opn in opens:
        for method in methods if opn == 'next_without_entry' else methods[:2]:
            for dd in (0, 1):
                sts, P = reading(rs, opn, method, dd)
                for st, rd in sts[:2]:
                    n0 = len(st.events())
                    for op in ops:
                        what = 'stream %s of %s%s' % (op, METHOD[method], ' with descriptor' if dd else '')
                        where = rs.span(ST + op)
                        for o in s.call(ST + op, [rd], st):
                            R.count('outcomes')
                            if not rs.outcome(o, what) or is_err(o[2]):
                                if o[0] == 'ret':
                                    finish_error(rs, o[1], o[2], o[1].events()[n0:], op, what, where)
                                continue
                            finish_ok(rs, o[1], o[2].a[2][0], o[1].events()[n0:], op, dd, what, where)
    R.analysed(e)
    return rs


def is_end(st, ev):
    """the entry reader reported end of data"""
    if ev[0] == 'take-end':
        return True
    if ev[-1] == 'empty':
        return False
    n = ev[1] if ev[0] == 'decread' else ev[3] if ev[0] == 'read' else None
    return isinstance(n, E) and st.facts.range(n) == (0, 0)


def finish_error(rs, st, v, evs, op, what, where):
    n = variant(rs.e, v.a[2][0], st)
    if n == 'EOFNotReached':
        got = [ev for ev in evs if ev[0] in ('decread', 'read') and not is_end(st, ev)]
        rs.R.ob('C25', 'not-reached-only-with-data', bool(got) or (None if st.lossy else False), where, '%s: reports unread data although the entry reader %s' % (what, 'delivered data' if got else 'delivered none'))


def finish_ok(rs, st, v, evs, op, dd, what, where):
    R, e = rs.R, rs.e
    ends = [i for i, ev in enumerate(evs) if is_end(st, ev)]
    lossy = None if st.lossy else False
    R.ob('C25', 'end-of-data-first', bool(ends) or lossy, where, '%s: succeeds %s' % (what, 'after the end of data was reported' if ends else 'without the entry reader having reported end of data'))
    if not ends:
        return
    i = ends[0]
    if op == 'done':
        data = [ev for ev in evs[:i] if ev[0] in ('decread', 'read')]
        R.ob('C25', 'unread-data-refused', not data or lossy, where, '%s: succeeds although the entry still delivered data' % what)
    tail = [ev for ev in evs[i + 1:] if ev[0] == 'read' and not is_end(st, ev)]
    more = [ev for ev in evs[i + 1:] if ev[0] in ('decread', 'loop')]
    end = rs.rpos(st)
    if more or end is None:
        R.ob('C25', 'descriptor-length', None, where, what)
        return
    if not dd:
        R.ob('C25', 'nothing-consumed-without-descriptor', not tail or lossy, where, '%s: %s source reads after the end of the data' % (what, len(tail)))
    else:
        p0 = tail[0][2] if tail else end
        used = sub(end, p0)
        for sig in (True, False):
            c = eq(le_at(p0, 0, 4), C(DESC))
            st1 = st.assume(c if sig else not_(c))
            if st1 is None:
                continue
            R.ob('C25', 'descriptor-length', same(st1, used, C(16 if sig else 12)), where, '%s: consumes %s bytes for a descriptor %s signature' % (what, show(used), 'with' if sig else 'without'))
    # the same source is handed on
    found = contains(v, lambda x: not isinstance(x, E) and x.k == 'sym' and x.a[0] == 'R')
    R.ob('C25', 'same-source-returned', found or (None if not clean(v) else False), where, '%s: the ready reader holds the same source' % what)


# ---------------------------------------------------------------------- opening a seekable archive
OPEN = {'seek': SK + 'new', 'seek-tokio': SK + 'with_tokio', 'mem': B + 'mem::ZipFileReader::new', 'fs': 'tokio::read::fs::ZipFileReader::new'}
FILE = {'seek': SK + 'file', 'mem': B + 'mem::ZipFileReader::file', 'fs': 'tokio::read::fs::ZipFileReader::file'}


def run_open(R, kind='seek', fams=('all',)):
    """opening an archive on a seekable source of unknown bytes; the end-record search and the directory record
    parser are replaced by what C29 and run_record establish"""
    rs = RS(R, 0)
    s, e = rs.s, rs.e
    e.max_disj = 200
    if not any(k == 'locator' for k, _ in use_reader_contracts(s)):
        R.ob('C06', 'anchor', None, '', 'no function with the role of the end-record search')
    fn = OPEN[kind]
    kind = kind.split('-')[0]
    atom, arg = {'seek': ('F:R', Sym('R', s.argty(fn, 1))), 'mem': ('data', None), 'fs': ('F:file#1', Sym('path', s.argty(fn, 1)))}[kind]
    if kind == 'mem':
        arg = e.mk_sym('data', s.argty(fn, 1))
    e.atom_ty[atom] = e.U8
    where = rs.span(fn)
    for fam in fams:
        st = State()
        if kind == 'seek':
            st, _ = rs.source()
        rs.fam = fam
        for o in s.call(fn, [arg], restrict_open(st, kind, fam, atom)):
            what = 'open %s' % kind
            R.count('outcomes')
            if not rs.outcome(o, what):
                continue
            st1, v = o[1], o[2]
            loc_ = [ev for ev in st1.events() if ev[0] == 'locator']
            if is_err(v):
                if loc_:
                    open_error(rs, st1, v, loc_[-1][2], atom, what, where)
                continue
            if len(loc_) != 1:
                R.ob('C06', 'end-record', None, where, what)
                continue
            open_ok(rs, st1, v.a[2][0], loc_[0][2], atom, kind, what, where)
    R.analysed(e)
    return rs


def restrict_open(st, kind, fam, atom):
    """a family of end records (the position of the end record is the locator's result eocdr#n)"""
    if fam == 'all':
        return st
    O = S('eocdr#%d' % (2 if kind == 'fs' else 1), 4, 1 << 62)
    at = lambda k, n: le_at(O, k, n, atom)
    if fam == 'plain':
        return st.assume(not_(eq(at(-24, 4), C(Z64L)))).assume(le(C(24), O))
    if fam == 'short':
        return st.assume(lt(O, C(24)))
    st = st.assume(eq(at(-24, 4), C(Z64L))).assume(le(C(24), O))
    for k, n in ((0, 2), (2, 2), (4, 2), (6, 2), (12, 4)):
        for j in range(n if fam == 'sat' else 1):
            st = st.assume(eq(elem(atom, add(O, C(k + j))), C(255 if fam == 'sat' else 1)))
    return st


ENDF = {'disk': (0, 2, 16, 4), 'cddisk': (2, 2, 20, 4), 'here': (4, 2, 24, 8), 'total': (6, 2, 32, 8), 'cdoff': (12, 4, 48, 8)}


def end_values(st, O, atom):
    """[(state, zip64?, {field: value})]: what the end records say, by the specification"""
    res = []
    zsig = eq(le_at(O, -24, 4, atom), C(Z64L))
    has = st.assume(le(C(24), O))
    no = st.assume(lt(O, C(24)))
    plain = {k: le_at(O, a, n, atom) for k, (a, n, _, _) in ENDF.items()}
    if no is not None:
        res.append((no, False, plain))
    if has is not None:
        a = has.assume(not_(zsig))
        if a is not None:
            res.append((a, False, plain))
        b = has.assume(zsig)
        if b is not None:
            Z = le_at(O, -16, 8, atom)
            cur = [(b, {})]
            for k, (o, n, zo, zn) in ENDF.items():
                v16, v64 = le_at(O, o, n, atom), le_at(Z, zo, zn, atom)
                sat = eq(v16, C((1 << (8 * n)) - 1))
                nxt = []
                for s1, d in cur:
                    for c, val in ((sat, v64), (not_(sat), v16)):
                        s2 = s1.assume(c)
                        if s2 is not None:
                            nxt.append((s2, dict(d, **{k: val})))
                cur = nxt
            res += [(s1, True, d) for s1, d in cur]
    return res


def open_ok(rs, st, rd, O, atom, kind, what, where):
    R, e, s = rs.R, rs.e, rs.s
    n_src = length(atom)
    clen = le_at(O, 16, 2, atom)
    R.ob('C27', 'end-record-complete', holds(st, le(add(O, add(C(18), clen)), n_src)), where, '%s: the archive opens although the end record or its comment may be incomplete' % what)
    evs = st.events()
    ri = next((i for i, ev in enumerate(evs) if ev[0] == 'record' or ev[0] == 'loop' and any(x[0] == 'record' for alt in e.loops.get(ev[1], {}).get('alts', ()) for x in alt)), len(evs))
    seeks = [ev for ev in evs[:ri] if ev[0] == 'seek']
    recs = [ev for ev in evs if ev[0] == 'record']
    for st0, fr in callv(s, FILE[kind], [Ref(('scn', 'rd'))], put(st, ('scn', 'rd'), rd)):
        for st1, cm in rs.ac(st0, 'file::ZipFile::comment', fr):
            for st2, b in rs.ac(st1, 'string::ZipString::as_bytes', cm):
                _, bs = s.M.seqof(st2, b)
                want = e.seq([('s', atom, add(O, C(18)), clen)])
                R.ob('C06', 'archive-comment', seq_same(e, st2, bs, want) if bs is not None else None, where, '%s: archive comment is %s' % (what, str(bs)[:120]))
                for st3, en in rs.ac(st2, 'string::ZipString::encoding', cm):
                    if bs is not None and variant(e, deref(e, st3, en), st3) == 'Utf8':
                        ok = not bs.a or any(st3.facts.decide(uf(p, (bs,), 0, 1)) is True for p in ('utf8', 'ascii'))
                        R.ob('C19', 'utf8-is-validated', ok or (None if st3.lossy else False), where, '%s: archive comment marked UTF-8' % what)
        lst = [(x, deref(e, x, y)) for x, y in rs.ac(st0, 'file::ZipFile::entries', fr)]
        zf = [(x, deref(e, x, y)) for x, y in rs.ac(st0, 'file::ZipFile::zip64', fr)]
        for st3, z64, want in end_values(st0, O, atom):
            Z = le_at(O, -16, 8, atom)
            if z64:
                R.ob('C03', 'zip64-record-signature', same(st3, le_at(Z, 0, 4, atom), C(Z64E)), where, '%s: the zip64 end record is used although its signature is not established' % what)
                R.ob('C27', 'zip64-record-complete', holds(st3, le(add(Z, C(56)), n_src)), where, '%s: the zip64 end record may be incomplete' % what)
            for pid in ('C18',):
                R.ob(pid, 'multi-disk-refused', same(st3, want['disk'], want['cddisk']), where, '%s: opens although disk numbers %s and %s may differ' % (what, show(want['disk'])[:60], show(want['cddisk'])[:60]))
                R.ob(pid, 'split-directory-refused', same(st3, want['total'], want['here']), where, '%s: opens although entry counts may differ between disks' % what)
            if seeks:
                pos = seeks[-1][3]
                R.ob('C05', 'directory-offset', same(st3, pos, want['cdoff']), where, '%s: the directory is read from %s, the end record says %s' % (what, show(pos)[:80], show(want['cdoff'])[:80]))
            rec_order(rs, st3, recs, lst, what, where)
            if recs:
                R.ob('C06', 'first-record-at-directory-offset', same(st3, recs[0][2], want['cdoff']), where, '%s: first record read at %s' % (what, show(recs[0][2])[:80]))
            for st4, lv in lst[:1]:
                _, ls = s.M.seqof(st4, lv)
                if ls is None:
                    R.ob('C06', 'entry-count', None, where, what)
                    continue
                st5 = st3
                for pid in ('C06', 'C05'):
                    R.ob(pid, 'entry-count', same(st5, e.seq_len(ls), want['total']), where, '%s: %s entries for a count of %s' % (what, show(e.seq_len(ls))[:60], show(want['total'])[:60]))
            for st4, b in zf[:1]:
                R.ob('C05', 'zip64-flag', same(st3, b, C(1 if z64 else 0)) if isinstance(b, E) else None, where, '%s: zip64 reported %s' % (what, b))


def rec_order(rs, st, recs, lst, what, where):
    """every record parsed is listed, in the order of the directory: those parsed one by one and, for a
    summarised loop, each iteration parses exactly one record, reads or seeks nothing else, and appends it"""
    e = rs.e
    for st1, lv in lst[:1]:
        _, ls = rs.s.M.seqof(st1, lv)
        if ls is None:
            return
        for p in ls.a:
            if p[0] == 's' and p[1] in e.loop_atoms:
                lid, alts = e.loop_atoms[p[1]]
                for evs, q in zip(e.loops[lid]['alts'], alts):
                    rec = [ev for ev in evs if ev[0] == 'record']
                    oth = [ev for ev in evs if ev[0] in ('read', 'seek', 'bufread')]
                    el = [x for x in q.a]
                    if any(ev[0] == 'loop' for ev in evs) or any(x[0] != 'e' for x in el):
                        rs.R.ob('C06', 'entries-in-order', None, where, what)
                        continue
                    ok = len(rec) == 1 and len(el) == 1 and el[0][1] is rec[0][3] and not oth
                    rs.R.ob('C06', 'entries-in-order', ok or (None if any(not clean(x[1]) for x in el) else False), where, '%s: an iteration parses %d records and lists %d' % (what, len(rec), len(el)))
        if any(p[0] != 'e' for p in ls.a) or len(ls.a) != len(recs):
            return
        ok = all(p[1] is r[3] for p, r in zip(ls.a, recs))
        rs.R.ob('C06', 'entries-in-order', ok or (None if st.lossy else False), where, '%s: entries listed in directory order' % what)


def open_error(rs, st, v, O, atom, what, where):
    """a refusal as multi-disk needs differing values"""
    if variant(rs.e, v.a[2][0], st) != 'FeatureNotSupported':
        return
    for st3, z64, want in end_values(st, O, atom):
        a = st3.assume(eq(want['disk'], want['cddisk']))
        a = a and a.assume(eq(want['total'], want['here']))
        rs.R.ob('C05', 'refusal-justified', a is None or (None if st3.lossy else False), where, '%s: refused as multi-disk although the end record values agree' % what)


def put(st, cell, v):
    st = st.copy()
    st.mem[cell] = v
    return st


# ---------------------------------------------------------------------- one central directory record
def role_fn(s, okname):
    """async functions of this crate generic over their source, by what they resolve to: [(instance, first argument builder)]"""
    e = s.e
    for i in e.I:
        if not (i['local'] and i['blocks'] and not i.get('promoted')) or i['args'] < 1:
            continue
        t = e.T(i['locals'][0])
        if t['k'] != 'coroutine' or t.get('inst') is None:
            continue
        rp = result_parts(e, e.I[t['inst']]['locals'][0])
        if not rp or not okname(e.T(rp[0])['s']):
            continue
        tys = [i['locals'][1]]
        while e.T(tys[-1])['k'] == 'ref':
            tys.append(e.T(tys[-1])['ty'])
        if e.T(tys[-1])['k'] != 'param':
            continue
        yield i, tys


def source_arg(s, st, tys):
    """Sym('R') behind the given chain of references"""
    v = Sym('R', tys[-1])
    for n, t in enumerate(reversed(tys[:-1])):
        c = ('scn', 'src', n)
        st.mem[c] = v
        v = Ref(c)
    return v


def rest_args(s, inst, first):
    """unknown values for the remaining arguments"""
    return [first] + [s.e.mk_sym('arg%d' % k, t) for k, t in enumerate(inst['locals'][2:1 + inst['args']])]


STORED_DEREF = 'entry::StoredZipEntry as Deref:deref'


def run_record(R, nx=None, fam='utf8'):
    """parsing of one central directory record at any source position"""
    rs = RS(R, nx)
    s, e = rs.s, rs.e
    c = list(role_fn(s, lambda n: n.endswith('StoredZipEntry') and not n.startswith('std::')))
    if not c:
        R.ob('C06', 'anchor', None, '', 'no function with the role of the directory record parser')
        return rs
    inst, tys = c[0]
    st, P = rs.source()
    st = fam_state(st, CREC, P, fam)
    arg = source_arg(s, st, tys)
    where = '%s %s' % (nname(inst), inst.get('span') or '')
    what = 'directory record'
    f = lambda k: le_at(P, *CREC[k])
    n, m, c = f('nlen'), f('xlen'), f('clen')
    for o in s.call(inst, rest_args(s, inst, arg), st):
        R.count('outcomes')
        if not rs.outcome(o, what):
            continue
        st1, v = o[1], o[2]
        if is_err(v):
            record_error(rs, st1, v, P, what, where)
            continue
        sv = v.a[2][0]
        end = add(add(P, C(46)), add(n, add(m, c)))
        R.ob('C03', 'signature-verified', same(st1, le_at(P, 0, 4), C(CDH)), where, '%s: accepted although its signature is not established' % what)
        R.ob('C06', 'next-record-position', same(st1, rs.rpos(st1), end) if rs.rpos(st1) is not None else None, where, '%s: leaves the source at %s, the record ends at %s' % (what, show(rs.rpos(st1)), show(end)))
        R.ob('C27', 'record-complete', holds(st1, le(end, length('F:R'))), where, '%s: accepted although it may be incomplete' % what)
        R.ob('C18', 'unknown-method-refused', any(same(st1, f('method'), C(k)) is True for k in METHOD) or (None if st1.lossy else False), where, '%s: an entry of an unknown method is accepted' % what)
        raw = e.seq([('s', 'F:R', add(P, C(46)), n)])
        rawc = e.seq([('s', 'F:R', add(add(P, C(46)), add(n, m)), c)])
        xev = [ev for ev in st1.events() if ev[0] == 'xparse']
        if len(xev) == 1:
            want = e.seq([('s', 'F:R', add(add(P, C(46)), n), m)])
            R.ob('C06', 'extra-field-bytes', seq_same(e, st1, xev[0][1], want), where, '%s: the extra fields are parsed from %s' % (what, str(xev[0][1])[:120]))
        cell = ('scn', 'stored')
        st1 = put(st1, cell, sv)
        for st2, en in callv(s, STORED_DEREF, [Ref(cell)], st1):
            rs.meta(st2, en, what, where, P, CREC, raw, rawc, central=True)
            for st3, x in rs.ac(st2, 'entry::StoredZipEntry::header_size', Ref(cell)):
                R.ob('C06', 'header-size', same(st3, x, add(C(30), add(n, m))) if isinstance(x, E) else None, where, '%s: header_size() is %s' % (what, x))
            offsets(rs, st2, Ref(cell), f, what, where)
    R.analysed(e)
    return rs


def record_error(rs, st, v, P, what, where):
    R, e = rs.R, rs.e
    n = variant(e, v.a[2][0], st)
    if n == 'CompressionNotSupported':
        pay = v.a[2][0]
        num = pay.a[2][0] if pay.k == 'agg' and pay.a[2] else None
        m = le_at(P, *CREC['method'])
        R.ob('C15', 'refusal-names-method', same(st, num, m) if isinstance(num, E) else None, where, '%s: refused method number %s' % (what, show(num) if isinstance(num, E) else num))
        known = [k for k in METHOD if st.assume(eq(m, C(k))) is not None]
        R.ob('C15', 'known-method-accepted', not known or (None if st.lossy else False), where, '%s: method %s refused' % (what, known))


def offsets(rs, st, ref, f, what, where):
    """C05: the 64-bit offset replaces the 32-bit one exactly when that is saturated and the value is present"""
    R, e = rs.R, rs.e
    xs, evs = rs.xlist(st)
    if xs is None or not R.want('C05', 'C06', 'C16'):
        return
    for st1, vs in rs.split(st, xs):
        z = [v for n, v in vs if 'Zip64' in n]
        fv = rs.named(z[0].a[2][0], 'relative_header_offset') if z else None
        for st2, val in (rs.opt(st1, fv) if fv is not None else [(st1, None)]):
            for st3, got in rs.ac(st2, 'entry::StoredZipEntry::header_offset', ref):
                if not isinstance(got, E):
                    R.ob('C05', 'header-offset', None, where, what)
                    continue
                sat = eq(f('off'), C(0xffffffff))
                for c, want in ((sat, val if val is not None else f('off')), (not_(sat), f('off'))):
                    st4 = st3.assume(c)
                    if st4 is not None:
                        R.ob('C05', 'header-offset', same(st4, got, want), where, '%s: header_offset() is %s, expected %s' % (what, show(got)[:100], show(want)[:100]))


# ---------------------------------------------------------------------- searching the end record
RPOS = ('g', ('rpos', 'R'))
REACH = 22 + 65535          # the record may start this far before the end of the archive


def search_var(e, info):
    """the counter of a loop that walks down one position at a time"""
    for loc, (v, v0, k, _) in info['syms'].items():
        if k not in ('free', 'rel') or not info['backs'] or loc == RPOS:
            continue
        try:
            if all(sub(e.getloc(b, loc), v) is C(-1) for b in info['backs']):
                return v, v0
        except Exception:
            continue
    return None


def window(e, evs):
    """(window start, loop over windows or None, search loop or None) described by events"""
    p = outer = search = None
    for ev in evs:
        if ev[0] == 'seek':
            p, search = ev[4], None
        elif ev[0] == 'loop' and ev[1] in e.loops:
            info = e.loops[ev[1]]
            if any(x[0] == 'seek' for alt in info['alts'] for x in alt):
                outer, search = ev[1], None
                p = e.getloc(info['H'], RPOS)
            elif search_var(e, info) and not any(x[0] in ('read', 'seek') for alt in info['alts'] for x in alt):
                search = ev[1]
    return p, outer, search


def run_locator(R):
    rs = RS(R, 0)
    s, e = rs.s, rs.e
    c = list(role_fn(s, lambda n: n == 'u64'))
    if not c:
        R.ob('C29', 'anchor', None, '', 'no function with the role of the end-record search')
        return rs
    inst, tys = c[0]
    where = '%s %s' % (nname(inst), inst.get('span') or '')
    what = 'end record search'
    st, P = rs.source()
    arg = source_arg(s, st, tys)
    n = length('F:R')
    outers, searches = set(), {}
    outcomes = list(s.call(inst, rest_args(s, inst, arg), st))
    # where, relative to its counter, a search looks: learnt from the positions it reports
    D = {}
    for o in outcomes:
        if o[0] != 'ret' or is_err(o[2]) or not isinstance(o[2].a[2][0], E):
            continue
        p, outer, search = window(e, o[1].events())
        if search is not None and p is not None:
            D.setdefault(search, set()).add(sub(o[2].a[2][0], add(p, search_var(e, e.loops[search])[0])))
    rs.found = {k: list(v)[0] for k, v in D.items() if len(v) == 1 and all(x.k == 'c' for x in v)}
    # a search that never reports anything on the paths at hand looks where its siblings do
    if len(set(rs.found.values())) == 1:
        for lid in e.loops:
            if lid not in D:
                rs.found.setdefault(lid, list(rs.found.values())[0])
    for o in outcomes:
        R.count('outcomes')
        if not rs.outcome(o, what):
            continue
        st1, v = o[1], o[2]
        evs = st1.events()
        p, outer, search = window(e, evs)
        if outer:
            outers.add(outer)
        if is_err(v):
            if variant(e, v.a[2][0], st1) == 'UnableToLocateEOCDR':
                if search is None or p is None:
                    # given up without searching: only where no record fits
                    R.ob('C29', 'not-found-only-after-search', True if st1.assume(le(C(22), n)) is None else None, where, what)
                    continue
                searches.setdefault(search, []).append(p)
                nothing_missed(rs, st1, p, search, what, where)
                left = st1.assume(lt(ZERO, p))
                left = left and left.assume(lt(sub(n, C(REACH)), p))
                R.ob('C29', 'every-position-reached', True if left is None else None if left.lossy or not_loop(p, outer, e) else False, where,
                     '%s: gives up at window start %s although a record may start at length-%d' % (what, show(p), REACH))
            continue
        off = v.a[2][0]
        if not isinstance(off, E):
            continue
        R.ob('C29', 'position-after-signature', same_known(st1, le_at(off, -4, 4), C(EOCDR)), where, '%s: returns %s although the four bytes before it are not established to be the signature' % (what, show(off)))
        R.ob('C29', 'position-inside', holds(st1, le(off, n)) or (None if st1.lossy or not clean_term(off) else False), where, '%s: returns %s' % (what, show(off)))
        if search is not None:
            searches.setdefault(search, []).append(p)
    for lid in outers:
        info = e.loops[lid]
        p = e.getloc(info['H'], RPOS)
        for b in info['backs']:
            evs = b.events(info['H'].ev)
            k = max([i for i, ev in enumerate(evs) if ev[0] == 'seek'], default=None)
            if k is None:
                R.ob('C29', 'windows-overlap', None, where, what)
                continue
            _, _, search = window(e, evs[:k])
            nxt = evs[k][4]
            if search is None:
                R.ob('C29', 'windows-overlap', None, where, what)
                continue
            searches.setdefault(search, []).append(p)
            nothing_missed(rs, b, p, search, what, where)
            w = add(search_var(e, e.loops[search])[1], rs.found.get(search, S('?d')))
            c = or_(le(add(sub(p, nxt), C(3)), w), le(sub(n, C(18)), add(p, w)))
            bad = b.assume(not_(c))
            r = True
            if bad is not None:
                lo, hi = bad.facts.range(w)
                dl, dh = bad.facts.range(sub(p, nxt))
                r = False if (lo == hi or clean_term(w)) and dl == dh and not bad.lossy else None
            R.ob('C29', 'windows-overlap', r, where, '%s: the next window starts %s before this one, whose searched length is %s: a signature between them is missed' % (what, show(sub(p, nxt)), show(w)))
        # the first window
        p0 = e.getloc(info['s0'], RPOS)
        lows = []
        for search, ps in searches.items():
            si = e.loops[search]
            w = add(search_var(e, si)[1], rs.found.get(search, S('?d')))
            if p not in ps:
                continue
            nf = si['s0'].assume(lt(add(p, w), sub(n, C(18))))
            if nf is not None:
                lows.append(nf.facts.range(w))
        need = info['s0'].facts.range(sub(sub(n, C(18)), p0))
        k = min([x[0] for x in lows], default=None)
        if k is not None:
            ok = True if need[1] <= k else False if need[0] > max(x[1] for x in lows) else None
            R.ob('C29', 'first-window-reaches-end', ok, where, '%s: the first window starts %s..%s before the last possible position' % (what, need[0], need[1]))
    for search, ps in searches.items():
        info = e.loops[search]
        v, v0 = search_var(e, info)
        for p in dict.fromkeys(ps):
            for b in info['backs']:
                d = rs.found.get(search)
                R.ob('C29', 'mismatch-before-continuing', sig_excluded(b, p, add(v, d)) if d is not None else None, where, '%s: the search goes on although the signature may end at %s' % (what, show(v)))
    if not searches:
        R.ob('C29', 'search-loop', None, where, 'the search is not understood')
    R.analysed(e)
    return rs


def not_loop(p, outer, e):
    """the window start is not the loop's own tracked position"""
    if p.k == 'c':
        return False
    return outer is None and not clean_term(p)


def same_known(st, a, b):
    r = same(st, a, b)
    if r is False and (st.lossy or not clean_term(a)):
        t = st.assume(eq(a, b))
        return None if t is not None else False
    return r


def sig_excluded(st, p, v):
    """in this state no signature ends v bytes into the window that starts at p"""
    a = st.assume(le(C(4), v))
    a = a and a.assume(eq(le_at(add(p, v), -4, 4), C(EOCDR)))
    if a is None:
        return True
    known = any(not isinstance(x, E) and x.k == 'seq' and x.a and x.a[0][0] == 's' and x.a[0][1] == 'F:R' and same(st, x.a[0][2], p) is True for x in st.mem.values())
    return False if known and not st.lossy else None


def nothing_missed(rs, st, p, search, what, where):
    v, _ = search_var(rs.e, rs.e.loops[search])
    d = rs.found.get(search)
    rs.R.ob('C29', 'window-searched-completely', sig_excluded(st, p, add(v, d)) if d is not None else None, where, '%s: the search of a window ends although the signature may end at %s' % (what, show(v)))


# ---------------------------------------------------------------------- entry readers of the seekable archives
PRE = {'seek': SK, 'mem': B + 'mem::ZipFileReader::', 'fs': 'tokio::read::fs::ZipFileReader::'}
OPS = {'seek': ('reader_without_entry', 'reader_with_entry', 'into_entry'), 'mem': ('reader_without_entry', 'reader_with_entry'),
       'fs': ('reader_without_entry', 'reader_with_entry')}


def deep(e, st, v, path=(), seen=0):
    """sub-values with their ancestors, following references; borrowed marks what was reached through one"""
    yield v, path
    if isinstance(v, E) or seen > 12:
        return
    if v.k == 'ref':
        try:
            t = e.rd(st, v)
        except Exception:
            return
        kids = (t,)
    else:
        kids = v.a[2] if v.k == 'agg' else v.a[1] if v.k == 'obj' else ()
    for c in kids:
        for x in deep(e, st, c, path + (v,), seen + 1):
            yield x


def source_in(rs, st, v):
    """(kind, name or cursor value, reached through a reference?, limits, decoders) of the source an entry reader reads"""
    e = rs.e
    for x, path in deep(e, st, v):
        if isinstance(x, E):
            continue
        lim = [p.a[1][1] for p in path if p.k == 'obj' and p.a[0] == 'Take']
        dec = [p.a[2] for p in path if p.k == 'obj' and p.a[0] == 'dec']
        if not lim:
            continue
        ref = any(p.k == 'ref' for p in path)
        k = rs.s.M.kind(x)
        if k == 'base':
            return 'base', rs.s.M.base_name(x), ref, lim, dec
        if k == 'Cursor':
            return 'Cursor', x, ref, lim, dec
    return None, None, None, [], []


def run_entry(R, kind, ops=None):
    """obtaining a reader for any index of any archive value, whatever the local header bytes and wherever the
    source was left by earlier use"""
    rs = RS(R, 0)
    s, e, M = rs.s, rs.e, rs.s.M
    pre = PRE[kind]
    I = S('index', 0, (1 << 64) - 1)
    for op in ops or OPS[kind]:
        fr = pre + 'from_raw_parts'
        st, P = rs.source() if kind == 'seek' else (State(), None)
        a1 = e.mk_sym({'seek': 'R', 'mem': 'data', 'fs': 'path'}[kind], s.argty(fr, 1))
        a2 = e.mk_sym('file', s.argty(fr, 2))
        (st, rd), = callv(s, fr, [a1, a2], st)
        cell = ('scn', 'rd')
        st = put(st, cell, rd)
        base = st.ev
        where = rs.span(pre + op)
        what = '%s %s' % (kind, op)
        e.atom_ty['data'] = e.U8
        # the entry the index names
        fc = ('scn', 'file')
        st = put(st, fc, a2)
        (st, el), = [(x, y) for x, y in rs.ac(st, 'file::ZipFile::entries', Ref(fc))][:1]
        if isinstance(el, E) or el.k != 'ref':
            R.ob('C16', 'entry-list', None, where, what)
            continue
        _, ls = M.seqof(st, el)
        n = e.seq_len(ls)
        er = Ref(el.a[0], el.a[1] + (('i', I),))
        for o in s.call(pre + op, [rd if op == 'into_entry' else Ref(cell), I], st):
            R.count('outcomes')
            if not rs.outcome(o, what):
                continue
            st1, v = o[1], o[2]
            if is_err(v):
                vn = variant(e, v.a[2][0], st1)
                if vn == 'EntryIndexOutOfBounds':
                    R.ob('C16', 'out-of-bounds-only-outside', holds(st1, le(n, I)), where, '%s: index refused although it may be inside the archive' % what)
                else:
                    R.ob('C16', 'outside-is-out-of-bounds', True if st1.assume(le(n, I)) is None else None if st1.lossy else False, where, '%s: an index outside the archive gives %s' % (what, vn))
                continue
            R.ob('C16', 'outside-is-out-of-bounds', True if st1.assume(le(n, I)) is None else None if st1.lossy else False, where, '%s: succeeds for an index outside the archive' % what)
            entry_reader(rs, st1, v.a[2][0], er, kind, op, base, what, where)
    R.analysed(e)
    return rs


def entry_reader(rs, st, v, er, kind, op, base, what, where):
    R, e, s, M = rs.R, rs.e, rs.s, rs.s.M
    sk, src, ref, lims, decs = source_in(rs, st, v)
    if sk is None:
        for p in ('C16', 'C26'):
            R.ob(p, 'source', None, where, '%s: the source of the entry reader is not understood' % what)
        return
    if sk == 'base':
        atom, pos, slen = M.fatom(src), M.rpos(st, src), M.flen(src)
    else:
        d = M.cursor_data(st, src)
        if d is None or len(d.a) != 1 or d.a[0][0] != 's' or d.a[0][2] is not ZERO:
            R.ob('C16', 'source', None, where, what)
            return
        atom, pos, slen = d.a[0][1], src.a[1][1], e.seq_len(d)
    # whose source
    if kind == 'seek':
        ok = sk == 'base' and src == 'R'
        R.ob('C16', 'own-source', ok, where, '%s: reads from %s' % (what, src))
    elif kind == 'mem':
        R.ob('C16', 'own-source', sk == 'Cursor' and atom == 'data', where, '%s: reads from %s' % (what, atom))
        R.ob('C26', 'own-cursor', sk == 'Cursor' and not ref, where, '%s: the cursor is %s' % (what, 'shared through a reference' if ref else 'owned by the entry reader'))
    else:
        opens = [ev for ev in st.events() if ev[0] == 'open']
        ok = sk == 'base' and len(opens) == 1 and src == opens[0][1] and not ref
        R.ob('C26', 'own-file-handle', ok, where, '%s: %d files opened, reads from %s' % (what, len(opens), src))
        pv = opens[0][2] if opens else None
        R.ob('C16', 'own-source', (None if pv is None else True if contains(deref(e, st, pv) if not isinstance(pv, E) else pv, lambda x: not isinstance(x, E) and x.k == 'sym' and x.a[0] == 'path') else None), where, '%s: opens %s' % (what, pv))
    # positions
    for st1, off in rs.ac(st, 'entry::StoredZipEntry::header_offset', er):
        h = lambda k, m: le_at(off, k, m, atom)
        start = add(add(off, C(30)), add(h(26, 2), h(28, 2)))
        R.ob('C16', 'positioned-at-data', same(st1, pos, start), where, '%s: the data is read from %s, it starts at %s' % (what, show(pos)[:160], show(start)[:160]))
        R.ob('C03', 'signature-verified', same_known(st1, h(0, 4), C(LFH)), where, '%s: a reader is returned although the local header signature is not established' % what)
        R.ob('C18', 'encrypted-refused', same(st1, slc(h(6, 2), 0, 1), ZERO), where, '%s: a reader is returned although the local header may say encrypted' % what)
        R.ob('C27', 'header-complete', holds(st1, le(add(off, C(30)), slen)), where, '%s: a reader is returned although the local header may be incomplete' % what)
    for st1, z in callv(s, STORED_DEREF, [er], st):
        Z = 'entry::ZipEntry::'
        for st2, cs in rs.ac(st1, Z + 'compressed_size', z):
            r = same(st2, lims[0], cs) if len(lims) == 1 and isinstance(lims[0], E) else None
            R.ob('C16', 'bounded-by-own-size', r, where, '%s: bounded by %s, the entry has %s' % (what, lims, show(cs)))
        for st2, m in rs.ac(st1, Z + 'compression', z):
            decoder(rs, True, decs, variant(e, deref(e, st2, m), st2) or fixed_variant(e, st2, deref(e, st2, m)), what, where)
        if op == 'reader_with_entry':
            c2 = ('scn', 'er')
            for st2, got in callv(s, EN + 'entry', [Ref(c2)], put(st1, c2, v)):
                a, b = (deref(e, st2, x) for x in (got, z))
                ok = a is b
                if not ok:
                    oks = []
                    for nm in ('crc32', 'compressed_size', 'uncompressed_size', 'internal_file_attribute', 'external_file_attribute'):
                        for (x1, q1), (x2, q2) in zip(rs.ac(st2, Z + nm, got), rs.ac(st2, Z + nm, z)):
                            oks.append(same(st2, q1, q2))
                    ok = False if False in oks else None
                R.ob('C16', 'reports-own-entry', ok, where, '%s: entry() is %s' % (what, str(a)[:80]))


def fixed_variant(e, st, v):
    """the variant of an enum value when the facts leave one"""
    r = [n for s1, n, a in fork_variant(e, v, st)]
    return r[0] if len(r) == 1 else None


# ---------------------------------------------------------------------- checked reads
def run_checked(R, ops=('read_to_end_checked', 'read_to_string_checked')):
    """reading an entry to its end with the checksum comparison, for an entry of every method"""
    rs = RS(R, 0)
    s, e, M = rs.s, rs.e, rs.s.M
    fr = SK + 'from_raw_parts'
    st, P = rs.source()
    (st, rd), = callv(s, fr, [e.mk_sym('R', s.argty(fr, 1)), e.mk_sym('file', s.argty(fr, 2))], st)
    cell, c2, cb = ('scn', 'rd'), ('scn', 'er'), ('scn', 'buf')
    st = put(st, cell, rd)
    for o in s.call(SK + 'reader_with_entry', [Ref(cell), S('index', 0, (1 << 64) - 1)], st):
        if o[0] != 'ret' or not is_ok(o[2]):
            continue
        st0 = put(o[1], c2, o[2].a[2][0])
        for op in ops:
            ty = e.T(s.argty(EN + op, 2))
            buf0 = e.mk_sym('buf', ty['ty'])
            st1 = put(st0, cb, buf0)
            where = rs.span(EN + op)
            since = st1.ev
            for q in s.call(EN + op, [Ref(c2), Ref(cb)], st1):
                R.count('outcomes')
                if not rs.outcome(q, op):
                    continue
                st2, v = q[1], q[2]
                checked(rs, st2, v, since, c2, cb, op, where)
        # the caller read part of the entry before
        pre, L = ('scn', 'pre'), S('prelen', 1, 1 << 60)
        e.atom_ty['pre'] = e.U8
        st0.mem[pre] = Seq([('s', 'pre', ZERO, L)])
        inst = M.local_impl(e.rd(st0, Ref(c2)), 'AsyncRead', 'poll_read')
        if inst is None:
            R.ob('C17', 'success-only-on-match', None, rs.span(EN + 'entry'), 'entry readers are not read through poll_read')
            continue
        for o1 in M.call_impl(inst, [M.pin(Ref(c2)), Ref(('sym', 'cx', None)), Ref(pre)], st0, {'fn': EN + 'poll_read', 'fid': 'scn', 'bb': 0, 'sub': 0, 'depth': 0}) or []:
            if o1[0] != 'ret':
                continue
            for z in M.unpoll([o1]) or []:
                if z[1] != 'ok' or not isinstance(z[2], E) or z[0].assume(eq(z[2], ZERO)) is not None and z[0].facts.const(z[2]) == 0:
                    continue
                st1 = z[0].assume(lt(ZERO, z[2]))
                if st1 is None:
                    continue
                part = e.seq_slice(st1, e.rd(st1, Ref(pre)), ZERO, z[2])
                for op in ops:
                    ty = e.T(s.argty(EN + op, 2))
                    st3 = put(st1, cb, e.mk_sym('buf', ty['ty']))
                    since = st3.ev
                    for q in s.call(EN + op, [Ref(c2), Ref(cb)], st3):
                        R.count('outcomes')
                        if rs.outcome(q, op):
                            checked(rs, q[1], q[2], since, c2, cb, op + ' after reading part', rs.span(EN + op), part)
    R.analysed(e)
    return rs


def checked(rs, st, v, since, c2, cb, op, where, before=None):
    R, e, s, M = rs.R, rs.e, rs.s, rs.s.M
    _, bs = M.seqof(st, Ref(cb))
    if bs is None:
        R.ob('C17', 'buffer', None, where, op)
        return
    if not bs.a or bs.a[0][:2] != ('s', 'buf'):
        R.ob('C17', 'buffer-keeps-content', None, where, op)
        return
    got = e.seq(bs.a[1:])
    alld = got if before is None else e.seq(list(before.a) + list(got.a))
    crc = uf('crc', (alld,), 0, (1 << 32) - 1)
    for st1, en in callv(s, EN + 'entry', [Ref(c2)], st):
        for st2, want in rs.ac(st1, 'entry::ZipEntry::crc32', en):
            if is_ok(v):
                R.ob('C17', 'success-only-on-match', same_known(st2, crc, want), where, '%s: succeeds although the CRC-32 of the delivered bytes %s is not established to equal the recorded one' % (op, str(alld)[:100]))
                n = v.a[2][0]
                R.ob('C17', 'count-of-bytes', same(st2, n, e.seq_len(got)) if isinstance(n, E) else None, where, '%s: returns %s for %s bytes delivered' % (op, n, show(e.seq_len(got))[:100]))
                evs = st2.events(since)
                R.ob('C17', 'read-to-the-end', any(is_end(st2, ev) for ev in evs) or (None if st2.lossy else False), where, '%s: succeeds before the end of the entry was seen' % op)
            elif variant(e, v.a[2][0], st2) == 'CRC32CheckError':
                R.ob('C17', 'mismatch-only', True if st2.assume(eq(crc, want)) is None else None if st2.lossy or not clean(alld) else False, where, '%s: reports a CRC mismatch although the CRC-32 of the delivered bytes may match' % op)
