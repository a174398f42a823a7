"""Writer-side rules: abstract histories of the public writer API, whose emitted bytes are parsed against the specification."""
from rulelib import *

W = 'base::write::ZipFileWriter::'
ES = 'base::write::entry_stream::EntryStreamWriter'
FN = {'whole': W + 'write_entry_whole', 'wholepre': W + 'write_entry_whole_precompressed',
      'stream': W + 'write_entry_stream', 'streampre': W + 'write_entry_stream_precompressed'}
METHOD = {'Stored': 0, 'Deflate': 8, 'Deflate64': 9, 'Bz': 12, 'Lzma': 14, 'Zstd': 93, 'Xz': 95}
ENCODER = {'Deflate': 'DeflateEncoder', 'Bz': 'BzEncoder', 'Lzma': 'LzmaEncoder', 'Xz': 'XzEncoder', 'Zstd': 'ZstdEncoder'}
SENT32, SENT16 = 0xFFFFFFFF, 0xFFFF
LFH, DD, CDH, Z64E, Z64L, EOCD = 0x04034b50, 0x08074b50, 0x02014b50, 0x06064b50, 0x07064b50, 0x06054b50


class Entry:
    def __init__(self, kind, name, data):
        self.kind, self.name, self.data = kind, name, data      # data: Seq written by the caller
        self.start = None


class WS:
    def __init__(self, R, max_steps=4000000):
        self.R = R
        self.s = Sc(max_steps=max_steps)
        self.e = self.s.e
        self.zty = self.e.by_s['entry::ZipEntry']
        self.gen = None
        self.panics = {}

    # ------------------------------------------------------------ setting up
    ctor = 'new'            # the constructor the writer comes from

    def new(self, mode):
        s, e = self.s, self.e
        st = State()
        st.ghost[('out', 'W')] = e.seq([])
        o = s.call(W + self.ctor, [Sym('W', s.argty(W + self.ctor, 1))], st)
        (st, w), = [(x[1], x[2]) for x in o if x[0] == 'ret']
        for m in {'def': (), 'no': ('force_no_zip64',), 'force': ('force_zip64',), 'fno': ('force_zip64', 'force_no_zip64')}[mode]:
            (st, w), = callv(s, W + m, [w], st)
        return st, w

    def leaves(self, v, path=()):
        if isinstance(v, E):
            yield path, v
        elif v.k == 'agg':
            for i, x in enumerate(v.a[2]):
                yield from self.leaves(x, path + (i,))
        elif v.k == 'seq':
            yield path, v

    def put(self, v, path, x):
        if not path:
            return x
        fs = list(v.a[2])
        fs[path[0]] = self.put(fs[path[0]], path[1:], x)
        return Agg(v.a[0], v.a[1], fs)

    def writer(self, mode, pre=True):
        """a writer in the given mode after an arbitrary history that emitted PRE bytes"""
        st, w = self.new(mode)
        if pre:
            if self.gen is None:
                self.gen = self.offset_leaves()
            if self.gen:
                self.e.atom_ty['PRE'] = self.e.U8
                n = length('PRE')
                st.ghost[('out', 'W')] = Seq([('s', 'PRE', ZERO, n)])
                st.facts = st.facts.assume(le(n, C(1 << 61)))
                for p in self.gen:
                    w = self.put(w, p, n)
        self.s.cell(st, 'writer', w)
        return st

    def offset_leaves(self):
        """writer fields that hold the number of emitted bytes (found by running one write)"""
        st, w0 = self.new('def')
        self.s.cell(st, 'writer', w0)
        zero = {p for p, v in self.leaves(w0) if v is ZERO}
        res = set()
        for st2, _ in self.families(st, 'g', 'simple'):
            for o in self.write(st2, 'whole', 'g', 'gd'):
                if o[0] == 'ret' and is_ok(o[2]):
                    n = self.e.seq_len(o[1].ghost[('out', 'W')])
                    got = {p for p, v in self.leaves(o[1].mem[('scn', 'writer')]) if isinstance(v, E) and same(o[1], v, n) is True}
                    res |= zero & got
                    return sorted(res)
        return sorted(res)

    def esym(self, name):
        self.e.atom_variant[name + '.into.extra_fields'] = self.unknown_variant()
        return Sym(name + '.into', self.zty)

    own = 'Unknown'         # the kind of the caller's own extra fields

    def unknown_variant(self):
        for t in load()['types']:
            if t['k'] == 'adt' and t['name'].endswith('header::ExtraField') and t['kind'] == 'enum':
                for i, v in enumerate(t['variants']):
                    if v['n'] == self.own:
                        return i
        return 3

    def text(self, st, name, which):
        """[(state, encoding variant, bytes Seq, alternative Seq|None)] of a text attribute"""
        s, e = self.s, self.e
        res = []
        for s1, r in acc(s, 'entry::ZipEntry::' + which, self.esym(name), st):
            for s2, enc in callv(s, 'string::ZipString::encoding', [r], s1):
                for s3, vn, _ in fork_variant(e, deref(e, s2, enc), s2):
                    for s4, b in callv(s, 'string::ZipString::as_bytes', [r], s3):
                        _, bs = s.M.seqof(s4, b)
                        for s5, alt in callv(s, 'string::ZipString::alternative', [r], s4):
                            for s6, av, a in fork_variant(e, alt, s5):
                                if av == 'Some':
                                    _, al = s.M.seqof(s6, a.a[2][0])
                                    res.append((s6, vn, bs, al))
                                else:
                                    res.append((s6, vn, bs, None))
        return res

    def attr(self, st, name, which):
        return acc(self.s, 'entry::ZipEntry::' + which, self.esym(name), st)

    def families(self, st, name, fam):
        """entry classes: refine the state so that path counts stay small"""
        e = self.e
        res = []

        def plain(st):
            r = []
            for s1, en, _, al in self.text(st, name, 'filename'):
                if en != 'Utf8' or al is not None:
                    continue
                for s2, en2, _, al2 in self.text(s1, name, 'comment'):
                    if en2 == 'Utf8' and al2 is None:
                        r.append(s2)
            return r

        def method(st, m):
            r = []
            for s1, c in self.attr(st, name, 'compression'):
                for s2, vn, _ in fork_variant(e, c, s1):
                    if vn == m:
                        r.append(s2)
            return r
        if fam == 'full':
            res = [(st, fam)]
        elif fam == 'methods':
            res = [(x, fam) for x in plain(st)]
        elif fam == 'texts':
            res = [(x, fam) for x in method(st, 'Stored')]
        elif fam.startswith('texts'):
            # split by the kind of file name: A raw, B UTF-8 with alternative, C plain UTF-8; D: A with alternative
            for x in method(st, 'Stored'):
                for s1, en, _, al in self.text(x, name, 'filename'):
                    cls = ('A' if al is None else 'D') if en != 'Utf8' else ('C' if al is None else 'B')
                    if cls in fam[5:]:
                        res.append((s1, fam))
        elif fam == 'simple':
            res = [(y, fam) for x in plain(st) for y in method(x, 'Stored')]
        return res

    # ------------------------------------------------------------ operations
    def wref(self):
        return Ref(('scn', 'writer'))

    def data(self, atom):
        self.e.atom_ty[atom] = self.e.U8
        return Seq([('s', atom, ZERO, S('n:' + atom, 0, 1 << 60))])

    def write(self, st, kind, name, dat, nwrites=2):
        """one entry operation -> outcomes; the caller's data is recorded in the ghost ('data', name)"""
        s, e = self.s, self.e
        fn = FN[kind]
        self.esym(name)
        ent = Sym(name, s.argty(fn, 2))
        if kind in ('whole', 'wholepre'):
            st = st.copy()
            d = self.data(dat)
            c = s.cell(st, 'data:' + dat, d)
            outs = s.call(fn, [self.wref(), ent, c], st)
            for o in outs:
                if o[0] == 'ret':
                    o[1].ghost[('data', name)] = d
            return outs
        res = []
        for o in s.call(fn, [self.wref(), ent], st):
            if o[0] != 'ret' or not is_ok(o[2]):
                res.append(o)
                continue
            st1, es = o[1].copy(), o[2].a[2][0]
            r = s.cell(st1, 'es', es)
            cur = [(st1, [])]
            for k in range(nwrites):
                nxt = []
                for st2, fed in cur:
                    st2 = st2.copy()
                    d = self.data('%s%d' % (dat, k))
                    c = s.cell(st2, 'data:%s%d' % (dat, k), d)
                    for p in s.call(ES + ' as AsyncWrite:poll_write', [Agg(None, 0, (r,)), Ref(('sym', 'cx', None)), c], st2):
                        if p[0] != 'ret':
                            res.append(p)
                            continue
                        pv = p[2]
                        if pv.k == 'agg' and pv.a[1] == 0 and is_ok(pv.a[2][0]):
                            n = pv.a[2][0].a[2][0]
                            nxt.append((p[1], fed + list(e.seq_slice(p[1], d, ZERO, n).a) if isinstance(n, E) else fed))
                        elif pv.k == 'agg' and pv.a[1] == 0:
                            # failed poll: the operation reports it to the caller
                            res.append(('ret', p[1], Agg(None, 1, (pv.a[2][0].a[2][0],))))
                cur = nxt
            for st2, fed in cur:
                for p in s.call(ES + '::close', [st2.mem[('scn', 'es')]], st2):
                    if p[0] == 'ret':
                        p[1].ghost[('data', name)] = e.seq(fed)
                    res.append(p)
        return res

    def close(self, st):
        return self.s.call(W + 'close', [st.mem[('scn', 'writer')]], st)

    def chunks(self, st):
        r = []
        for ev in st.events():
            if ev[0] == 'write' and ev[1] == 'W':
                r.append((ev[2], self.e.site(ev[6], ev[7])))
        return r

    def complete(self, st, ch):
        """the recorded writes are all that was emitted"""
        out = st.ghost[('out', 'W')]
        parts = [p for p in out.a if not (p[0] == 's' and p[1] == 'PRE')]
        got = [p for c, _ in ch for p in c.a]
        return self.e.seq(parts) is self.e.seq(got) or seq_same(self.e, st, self.e.seq(parts), self.e.seq(got)) is True

    # ------------------------------------------------------------ obligations on failures
    def panicked(self, o, what, kind):
        """a part that does not fit is refused by an error, not by a panic (or, without overflow checks, a wrapped length)"""
        R, e, st, p = self.R, self.e, o[1], o[2]
        R.count('panic_outcomes')
        for _, c in self.attr(st, 'entry', 'compression'):
            if variant(e, c, st) == 'Deflate64' and kind in ('whole', 'stream'):
                R.count('unsupported_encoder_outcomes')     # there is no encoder for this method; the library documents the panic
                return
        for c in list(st.facts.iv) + [p.get('cond')]:
            if isinstance(c, E):
                for x in subterms(c):
                    if x.k == 'len' or x.k == 's' and (x.a[0].startswith('n:') or loop_name(x.a[0])):
                        st = st and st.assume(le(x, C(1 << (61 if x.k == 's' else 59))))
        if st is None or isinstance(p.get('cond'), E) and st.facts.decide(p['cond']) is False:
            return
        where = e.site(p['fid'], p.get('bb')) if not p.get('local') and p.get('fid') is not None else '%s %s' % (p['fn'], p['sp'])
        ok = None if st.lossy or not cond_clean(e, p.get('cond'), st, p.get('ops')) else False
        self.panics[where] = self.panics.get(where, 0) + 1
        if str(p['kind']).startswith('ub:'):
            R.ob('C37', 'no-undefined-behaviour', ok, where, '%s: %s' % (what, p['kind']))
            return
        for pid in ('C08',) + (('C20',) if self.own != 'Unknown' else ()):
            R.ob(pid, 'refused-not-panicking', ok, where, '%s: %s' % (what, p['kind']))

    def failed(self, o, list0, what):
        """every outcome that met a sink failure returns an error carrying it; failed writes list nothing"""
        R = self.R
        st, v = o[1], o[2]
        if R.want('C37'):
            R.ob('C37', 'no-undefined-behaviour', True, what, '%s returns' % what)
        errs = [ev for ev in st.events() if ev[0] == 'ioerr']
        if errs:
            ok = is_err(v)
            where = self.e.site(errs[0][4], errs[0][5])
            if ok:
                names = {ev[1] for ev in errs}
                ok = contains(v, lambda x: not isinstance(x, E) and x.k == 'sym' and x.a[0] in names)
                if not ok and not clean(v):
                    ok = None
            R.ob('C24', 'sink-error-reported', ok, where, '%s: a failing %s is reported in the returned error' % (what, errs[0][1].split(':', 1)[1]) if ok else
                 '%s: the failure of %s does not reach the caller (returned %s)' % (what, errs[0][1].split(':', 1)[1], str(v)[:80]))
        w = st.mem.get(('scn', 'writer'))
        if w is not None and list0 is not None:
            now = [(p, v2) for p, v2 in self.leaves(w) if not isinstance(v2, E)]
            same_ = now == list0
            if is_err(v):
                R.ob('C13', 'failed-write-lists-nothing', same_, what, '%s: a failed write leaves the directory list unchanged' % what if same_ else
                     '%s: the directory list changed although the operation returned an error' % what)
            self.offset_inv(st, what)

    def offset_inv(self, st, what):
        w = st.mem.get(('scn', 'writer'))
        if self.gen and w is not None:
            n = self.e.seq_len(st.ghost[('out', 'W')])
            lv = dict(self.leaves(w))
            for p in self.gen:
                r = same(st, lv.get(p, ZERO), n)
                self.R.ob('C09', 'offset-counts-sink-bytes', r, what, '%s: the running offset equals the bytes the sink accepted' % what if r else
                          '%s: running offset is %s but %s bytes were emitted' % (what, lv.get(p), show(n)))

    def flags(self, st):
        """the constant settings of the writer"""
        return tuple(str(v) for p, v in self.leaves(st.mem[('scn', 'writer')]) if isinstance(v, E) and v.k == 'c')

    def lists(self, st):
        return [(p, v) for p, v in self.leaves(st.mem[('scn', 'writer')]) if not isinstance(v, E)]

    # ------------------------------------------------------------ parsing of the output
    def extras(self, seq, st, where, kindname):
        """split an emitted extra area -> list of (id, payload walk info)"""
        R, e = self.R, self.e
        w = Walk(e, st, [(seq, where)])
        out = []
        while not w.end():
            part, wh = w.peek()
            if part[0] == 's' and part[1].startswith('ASB:'):
                out.append(('user', part))
                w._adv()
                continue
            hid, size = w.num(2), w.num(2)
            idc = st.facts.const(hid)
            if idc is None:
                R.ob('C28', 'extra-header-id', same(st, hid, hid) and None, where, 'extra field id is not understood')
                return None
            payload = w.var(size)
            out.append((idc, size, payload, Walk(e, st, [(payload, where)])))
        return out

    def check_text_fields(self, st, ent, xs, where):
        """Info-ZIP unicode fields"""

    def archive(self, st, ents, mode, comment=None, pre=True, skip=0):
        """parse the emitted archive of a closed writer against the specification (behind `skip` chunks left by a failed write)"""
        R, e, s = self.R, self.e, self.s
        ch = self.chunks(st)
        if not self.complete(st, ch):
            # (a loop whose iterations write: what it emits is known only as a whole)
            for p in ('C04', 'C08'):
                R.ob(p, 'output-parses', None, FN[ents[0].kind] if ents else W + 'close', 'part of the output is written by a loop that is not unrolled')
            return False
        w = Walk(e, st, ch[skip:])
        base = length('PRE') if pre and self.gen else ZERO
        for c, _ in ch[:skip]:
            base = add(base, e.seq_len(c))
        pid = 'C04'
        try:
            recs = []
            for ent in ents:
                recs.append(self.local_part(w, st, ent, mode, base))
            pid = 'C04'
            cd_start = add(base, w.taken)
            cds = []
            for ent, rec in zip(ents, recs):
                cds.append(self.central(w, st, ent, rec, mode))
            cd_size = sub(add(base, w.taken), cd_start)
            self.tail(w, st, ents, mode, cd_start, cd_size, base, comment)
        except Short as x:
            ok = False if x.clean and not st.lossy else None
            for p in ('C04', 'C08'):
                R.ob(p, 'output-parses', ok, x.where, 'the emitted bytes do not parse as the specified record: ' + x.msg)
            return False
        for p in ('C04', 'C08'):
            R.ob(p, 'output-parses', True, FN[ents[0].kind] if ents else W + 'close', 'archive of %s in mode %s' % ([x.kind for x in ents], mode))
        return True

    def eqc(self, st, pid, rule, f, c, where, what):
        r = same(st, f, C(c))
        self.R.ob(pid, rule, r, where, '%s = %#x' % (what, c) if r else '%s should be %#x but is %s' % (what, c, show(f)))
        return r

    def eqv(self, st, pid, rule, a, b, where, what):
        r = same(st, a, b)
        self.R.ob(pid, rule, r, where, what if r else '%s: %s instead of %s' % (what, show(a), show(b)))
        return r

    def seqv(self, st, pid, rule, a, b, where, what):
        r = seq_same(self.e, st, a, b)
        self.R.ob(pid, rule, r, where, what if r else '%s: %s instead of %s' % (what, a, b))
        return r

    def local_part(self, w, st, ent, mode, base):
        R, e = self.R, self.e
        stream = ent.kind.startswith('stream')
        pos0 = add(base, w.taken)
        ent.start = pos0
        wh = w.where()
        self.eqc(st, 'C04', 'signature', w.num(4), LFH, wh, 'local header signature')
        wh = w.where()
        rec = dict(pos=pos0)
        for n, k in (('version', 2), ('flags', 2), ('method', 2), ('time', 2), ('date', 2), ('crc', 4), ('csize', 4), ('usize', 4), ('nlen', 2), ('xlen', 2)):
            rec[n] = w.num(k)
        rec['where'] = wh
        rec['name'] = w.var(rec['nlen'])
        wx = w.where()
        rec['extra'] = w.var(rec['xlen'])
        rec['xs'] = self.extras(rec['extra'], st, wx, 'local')
        # general purpose flags: only the data descriptor (3) and UTF-8 (11) bits are ever set
        fl = rec['flags']
        for lo, n in ((0, 3), (4, 7), (12, 4)):
            r = same(st, slc(fl, lo, n), ZERO)
            R.ob('C04', 'flag-bits-clear', r, wh, 'flag bits %d..%d clear' % (lo, lo + n) if r else 'flag bits %d..%d are %s' % (lo, lo + n, show(slc(fl, lo, n))))
        self.eqc(st, 'C04', 'data-descriptor-flag', slc(fl, 3, 1), 1 if stream else 0, wh, 'data descriptor flag')
        # the data
        wd = w.where()
        for st2, c in self.attr(st, ent.name, 'compression'):
            vn = variant(e, c, st2)
            rec['variant'] = vn
        src = st.ghost.get(('data', ent.name))
        rec['src'] = src
        rec['data'] = self.data_part(w, st, ent, rec, wd)
        rec['dsize'] = e.seq_len(rec['data'])
        # expected CRC / uncompressed size
        if ent.kind in ('whole', 'stream'):
            rec['x_crc'] = self.crc_of(src)
            rec['x_usize'] = e.seq_len(src)
        else:
            (_, rec['x_crc']), = self.attr(st, ent.name, 'crc32')
            (_, rec['x_usize']), = self.attr(st, ent.name, 'uncompressed_size')
        if stream:
            wh2 = w.where()
            self.eqc(st, 'C04', 'signature', w.num(4), DD, wh2, 'data descriptor signature')
            rec['dd'] = {}
            for n in ('crc', 'csize', 'usize'):
                rec['dd'][n] = (w.where(), w.num(4))
        if not stream:
            self.eqv(st, 'C12', 'local-crc', rec['crc'], rec['x_crc'], wh, '%s: CRC-32 in the local header is that of the data' % ent.kind)
            z = self.zip64(st, rec['xs'], [rec['usize'], rec['csize'], None, None], wx)
            for n, k, x in (('usize', 0, rec['x_usize']), ('csize', 1, rec['dsize'])):
                self.resolved(st, 'C12', '%s: local %s' % (ent.kind, n), rec[n], z[k], x, 32, wh)
        else:
            self.eqv(st, 'C12', 'descriptor-crc', rec['dd']['crc'][1], rec['x_crc'], rec['dd']['crc'][0], '%s: CRC-32 in the data descriptor is that of the data' % ent.kind)
        if mode in ('no', 'fno'):
            self.no_zip64(st, rec['xs'], wx, ent.kind + ' local header')
        return rec

    def crc_of(self, seq):
        import models
        return models.crc(seq)

    def level(self, name):
        """the compression level of the entry"""
        v = self.e.expand(self.esym(name))
        l = [x for x, f in zip(v.a[2], self.e.T(v.a[0])['variants'][0]['f']) if self.e.T(f['t'])['s'] == 'async_compression::Level']
        return l[0] if len(l) == 1 else None

    def data_part(self, w, st, ent, rec, wd):
        R, e = self.R, self.e
        src = rec['src']
        vn = rec['variant']
        raw = ent.kind in ('wholepre', 'streampre') or vn == 'Stored'
        if raw:
            try:
                d = w.var(e.seq_len(src))
            except Short as x:
                R.ob('C12', 'data-emitted', False if x.clean else None, x.where, '%s: the emitted data is not the caller\'s data: %s' % (ent.kind, x.msg))
                raise
            self.seqv(st, 'C12', 'data-emitted', d, src, wd, '%s: the emitted data is the data given' % ent.kind)
            return d
        p = w.peek()
        info = None
        if p is not None and p[0][0] == 's':
            info = getattr(self.s.M, 'enc_info', {}).get(p[0][1])
        if info is None:
            z = p is not None and p[0][0] == 's' and '?' in p[0][1]
            R.ob('C15', 'encoder-of-method', None if z else False, wd, '%s %s: the data emitted is not the output of an encoder' % (ent.kind, vn))
            R.ob('C12', 'data-emitted', None if z else False, wd, '%s %s: the data emitted is not the compressed data' % (ent.kind, vn))
            return e.seq([]) if p is None or p[0][0] != 's' else w.var(e.plen(p[0]))
        codec, lvl, fed = info
        R.ob('C15', 'encoder-of-method', codec == ENCODER.get(vn), wd, '%s: %s is encoded by %s' % (ent.kind, vn, codec))
        if vn == 'Deflate':
            from rules_values import veq
            want = self.level(ent.name)
            ok = None if want is None or '?' in str(lvl) else veq(e, st, lvl, want)
            R.ob('C39', 'requested-level', ok, wd, '%s: the deflate encoder is created at the entry\'s level' % ent.kind if ok else '%s: the deflate encoder is created at level %s, the entry asks for %s' % (ent.kind, lvl, want))
        r = seq_same(e, st, fed, src)
        R.ob('C12', 'data-emitted', r, wd, '%s %s: the encoder was fed exactly the data given' % (ent.kind, vn) if r else
             '%s %s: the encoder was fed %s instead of %s' % (ent.kind, vn, fed, src))
        whole = same(st, p[0][2], ZERO) and same(st, p[0][3], length(p[0][1]))
        R.ob('C12', 'data-complete', whole, wd, '%s %s: the complete encoder output is emitted' % (ent.kind, vn))
        return w.var(e.plen(p[0]))

    def zip64(self, st, xs, fields, where):
        """values of the (library-emitted) zip64 field, in specification order for the saturated fields"""
        out = [None] * 4
        if xs is None:
            return out
        n = 0
        for x in xs:
            if x[0] != 1:
                continue
            n += 1
            w = Walk(self.e, st, [(x[2], where)])
            for k, f in enumerate(fields):
                if f is None:
                    continue
                sent = SENT16 if k == 3 else SENT32
                if st.facts.const(f) == sent:
                    if w.end():
                        break
                    out[k] = w.num(4 if k == 3 else 8)
                elif st.facts.const(f) is None:
                    # a reader takes a field that happens to hold the sentinel for one whose value is in the zip64 field
                    r = holds(st, not_(eq(f, C(sent))))
                    self.R.ob('C10', 'sentinel-means-zip64', r, where, 'a field that is not in the zip64 field never holds the sentinel' if r else
                              'a field holding %s may equal the sentinel although the record\'s zip64 field has no value for it' % show(f))
            if not w.end() and fields[2] is None:
                w.num(8)        # a header offset repeated in the local copy is tolerated
            ok = w.end()
            self.R.ob('C28', 'zip64-field-holds-saturated-values', ok, where, 'zip64 field holds exactly the values whose 32-bit field is saturated' if ok else
                      'the zip64 field holds values beyond those of the saturated fields')
        self.R.ob('C28', 'one-zip64-field', n <= 1, where, 'at most one zip64 field is emitted')
        if self.own == 'Zip64ExtendedInformation' and any(o is not None for o in out):
            # a reader takes the first zip64 field: one the entry brought from another archive must not be in its way
            u = sum(x[0] == 'user' for x in xs)
            self.R.ob('C10', 'no-stale-zip64-field', True if n + u <= 1 else None if st.lossy else False, where, 'the record\'s only zip64 field is the one describing this archive'
                      if n + u <= 1 else 'the zip64 field of the entry\'s previous archive is emitted next to the one describing this archive')
        return out

    def no_zip64(self, st, xs, where, what):
        bad = xs is not None and any(x[0] == 1 or x[0] == 'user' and self.own == 'Zip64ExtendedInformation' for x in xs)
        self.R.ob('C11', 'no-zip64-extra', not bad, where, '%s carries no zip64 field' % what if not bad else '%s carries a zip64 extra field although zip64 is disabled' % what)

    def resolved(self, st, pid, what, field, z, true, w, where):
        """a 16/32-bit field, with its zip64 replacement, denotes the true value"""
        R = self.R
        sent = (1 << w) - 1
        if st.facts.const(field) == sent and z is not None:
            r = same(st, z, true)
            msg = what + ' (zip64) is the true value' if r else '%s: the zip64 field holds %s, the true value is %s' % (what, show(z), show(true))
            R.ob(pid, 'value-in-zip64', r, where, msg)
            R.ob('C10', 'exact-or-zip64', r, where, msg)
            return r
        if st.facts.const(field) == sent and same(st, true, C(sent)) is not True:
            for q in dict.fromkeys((pid, 'C10')):
                R.ob(q, 'exact-or-zip64', False if clean_term(true) and not st.lossy else None, where, '%s is saturated but no zip64 value is stored; the true value is %s' % (what, show(true)))
            return False
        r = field_is(st, field, true, w)
        if r is True:
            R.ob(pid, 'value-exact', True, where, what + ' is the true value')
            R.ob('C10', 'exact-or-zip64', True, where, what)
        elif same(st, field, trunc(true, w)) is True:
            for q in dict.fromkeys((pid, 'C10')):
                R.ob(q, 'exact-or-zip64', r, where, '%s is truncated: %s may exceed %d bits' % (what, show(true), w))
        else:
            R.ob(pid, 'value-exact', r, where, '%s is %s, the true value is %s' % (what, show(field), show(true)))
            if z is not None and same(st, z, true) is True:
                R.ob('C10', 'exact-or-zip64', r, where, '%s is %s: neither the true value %s, which is in the zip64 record, nor the sentinel' % (what, show(field), show(true)))
        return r

    def central(self, w, st, ent, rec, mode):
        R, e = self.R, self.e
        stream = ent.kind.startswith('stream')
        wh = w.where()
        self.eqc(st, 'C04', 'signature', w.num(4), CDH, wh, 'central record signature')
        wh = w.where()
        c = {}
        for n, k in (('made', 2), ('version', 2), ('flags', 2), ('method', 2), ('time', 2), ('date', 2), ('crc', 4), ('csize', 4), ('usize', 4),
                     ('nlen', 2), ('xlen', 2), ('clen', 2), ('disk', 2), ('iattr', 2), ('eattr', 4), ('lho', 4)):
            c[n] = w.num(k)
        c['name'] = w.var(c['nlen'])
        wx = w.where()
        c['extra'] = w.var(c['xlen'])
        wc = w.where()
        c['comment'] = w.var(c['clen'])
        xs = self.extras(c['extra'], st, wx, 'central')
        self.eqc(st, 'C04', 'disk-number', c['disk'], 0, wh, 'disk number of the entry')
        k = ent.kind
        for n in ('version', 'flags', 'method', 'time', 'date'):
            self.eqv(st, 'C07', 'local-central-agree', c[n], rec[n], wh, '%s: %s of central and local record' % (k, n))
        self.seqv(st, 'C07', 'local-central-agree', c['name'], rec['name'], wh, '%s: name of central and local record' % k)
        # against the caller's entry
        if rec['variant'] is not None and rec['variant'] in METHOD:
            self.eqc(st, 'C15', 'method-number', c['method'], METHOD[rec['variant']], wh, '%s: method number of %s' % (k, rec['variant']))
            self.eqc(st, 'C07', 'caller-attribute', c['method'], METHOD[rec['variant']], wh, '%s: method of the entry' % k)
        for n, a in (('iattr', 'internal_file_attribute'), ('eattr', 'external_file_attribute')):
            for st2, v in self.attr(st, ent.name, a):
                self.eqv(st2, 'C07', 'caller-attribute', c[n], v, wh, '%s: %s' % (k, a))
        dt = self.datetime(st, ent.name)
        if dt:
            self.eqv(st, 'C07', 'caller-attribute', c['date'], dt[0], wh, '%s: modification date' % k)
            self.eqv(st, 'C07', 'caller-attribute', c['time'], dt[1], wh, '%s: modification time' % k)
        # sizes, crc, offset
        self.eqv(st, 'C12', 'central-crc', c['crc'], rec['x_crc'], wh, '%s: CRC-32 in the directory is that of the data' % k)
        z = self.zip64(st, xs, [c['usize'], c['csize'], c['lho'], c['disk']], wx)
        self.resolved(st, 'C12', '%s: central uncompressed size' % k, c['usize'], z[0], rec['x_usize'], 32, wh)
        self.resolved(st, 'C12', '%s: central compressed size' % k, c['csize'], z[1], rec['dsize'], 32, wh)
        self.resolved(st, 'C09', '%s: local header offset' % k, c['lho'], z[2], rec['pos'], 32, wh)
        if stream:
            dd = rec['dd']
            self.eqv(st, 'C07', 'descriptor-agrees', dd['crc'][1], c['crc'], dd['crc'][0], '%s: CRC of descriptor and directory' % k)
            for n, true in (('csize', rec['dsize']), ('usize', rec['x_usize'])):
                wd, f = dd[n]
                zz = z[1 if n == 'csize' else 0]
                self.eqv(st, 'C07', 'descriptor-agrees', f, c[n], wd, '%s: %s of descriptor and directory' % (k, n))
                self.resolved(st, 'C12', '%s: descriptor %s' % (k, n), f, zz, true, 32, wd)
        else:
            for n in ('crc', 'csize', 'usize'):
                self.eqv(st, 'C07', 'local-central-agree', c[n], rec[n], wh, '%s: %s of central and local record' % (k, n))
        if mode in ('no', 'fno'):
            self.no_zip64(st, xs, wx, k + ' central record')
        self.user_extra(st, ent, rec, xs, wx)
        self.texts(st, ent, rec, c, xs, wh, wx, wc)
        return c

    def user_extra(self, st, ent, rec, xs, wx):
        """the caller's own extra fields are emitted once, unchanged, in both records"""
        if self.own != 'Unknown':
            return
        for nm, x in (('local', rec['xs']), ('central', xs)):
            if x is None:
                continue
            u = [p for p in x if p[0] == 'user']
            full = len(u) == 1 or self.st_empty(st, ent)
            self.R.ob('C07', 'user-extra-kept', full, wx, '%s: the %s record carries the entry\'s own extra fields' % (ent.kind, nm) if full else
                      '%s: the %s record carries the entry\'s own extra fields %d times' % (ent.kind, nm, len(u)))

    def st_empty(self, st, ent):
        return False

    def datetime(self, st, name):
        (st2, r), = self.attr(st, name, 'last_modification_date')
        v = deref(self.e, st2, r)
        if v.k == 'sym':
            v = self.e.expand(v)
        t = self.e.T(v.a[0])
        names = [f['n'] for f in t['variants'][0]['f']]
        if 'date' in names and 'time' in names:
            return v.a[2][names.index('date')], v.a[2][names.index('time')]
        return None

    def texts(self, st, ent, rec, c, xs, wh, wx, wc):
        R, e, k = self.R, self.e, ent.kind
        for s1, en, nb, na in self.text(st, ent.name, 'filename'):
            for s2, ec, cb, ca in self.text(s1, ent.name, 'comment'):
                stored_n = na if na is not None else nb
                stored_c = ca if ca is not None else cb
                self.seqv(s2, 'C07', 'caller-attribute', c['name'], stored_n, wh, '%s: file name bytes' % k)
                self.seqv(s2, 'C07', 'caller-attribute', c['comment'], stored_c, wc, '%s: comment bytes' % k)
                self.seqv(s2, 'C20', 'stored-name-bytes', c['name'], stored_n, wh, '%s: the stored name is the alternative when present, else the name' % k)
                self.seqv(s2, 'C20', 'stored-comment-bytes', c['comment'], stored_c, wc, '%s: the stored comment is the alternative when present, else the comment' % k)
                plain = en == 'Utf8' and na is None and ec == 'Utf8' and ca is None
                b11 = slc(rec['flags'], 11, 1)
                r = same(s2, b11, ZERO)
                if not plain:
                    R.ob('C20', 'utf8-flag-only-when-plain', r, rec['where'], '%s: UTF-8 flag clear (name %s alt %s, comment %s alt %s)' % (k, en, na is not None, ec, ca is not None))
                else:
                    r1 = same(s2, b11, ONE)
                    if r1 is not True:
                        # allowed only when the texts are carried by Unicode fields
                        R.ob('C20', 'utf8-flag-when-plain', r1, rec['where'], '%s: UTF-8 flag set for plain UTF-8 texts' % k)
                    else:
                        R.ob('C20', 'utf8-flag-when-plain', True, rec['where'], '%s: UTF-8 flag set for plain UTF-8 texts' % k)
                if not plain:
                    for what, xsx in (('local', rec['xs']), ('central', xs)):
                        if xsx is None:
                            continue
                        for hid, enc, b, stored, nm in ((0x7075, en, nb, stored_n, 'path'), (0x6375, ec, cb, stored_c, 'comment')):
                            fs = [x for x in xsx if x[0] == hid]
                            if enc != 'Utf8' and self.own == {0x7075: 'InfoZipUnicodePath', 0x6375: 'InfoZipUnicodeComment'}[hid]:
                                continue        # the caller's own field
                            if enc != 'Utf8':
                                R.ob('C20', 'no-unicode-field-for-raw', not fs, wx, '%s: no Unicode %s field for raw text' % (k, nm))
                                continue
                            if not fs:
                                r = True if s2.facts.range(e.seq_len(b)) == (0, 0) else (None if s2.lossy else False)
                                R.ob('C20', 'unicode-field-present', r, wx, '%s: Unicode %s field omitted only for empty text (%s)' % (k, nm, what))
                                continue
                            if self.own == {0x7075: 'InfoZipUnicodePath', 0x6375: 'InfoZipUnicodeComment'}[hid]:
                                # next to (or in place of) the caller's own field
                                if s2.facts.range(e.seq_len(b)) == (0, 0):
                                    continue
                                got = []
                                for f in fs:
                                    w = Walk(e, s2, [(f[2], wx)])
                                    try:
                                        ver, crc = w.num(1), w.num(4)
                                        rest = w.var(sub(f[1], C(5)))
                                    except Short:
                                        continue
                                    rs = (same(s2, ver, ONE), same(s2, crc, self.crc_of(stored)), seq_same(e, s2, rest, b))
                                    got.append(True if all(x is True for x in rs) else False if any(x is False for x in rs) else None)
                                R.ob('C20', 'unicode-field-present', True if True in got else None if None in got or s2.lossy else False, wx,
                                     '%s: a Unicode %s field with the text and the CRC-32 of the stored bytes (%s)' % (k, nm, what))
                                continue
                            R.ob('C20', 'unicode-field-present', len(fs) == 1, wx, '%s: exactly one Unicode %s field (%s)' % (k, nm, what))
                            w = Walk(e, s2, [(fs[0][2], wx)])
                            try:
                                ver, crc = w.num(1), w.num(4)
                                rest = w.var(sub(fs[0][1], C(5)))
                            except Short as x:
                                R.ob('C20', 'unicode-field-layout', False if x.clean else None, wx, 'Unicode %s field: %s' % (nm, x.msg))
                                continue
                            self.eqc(s2, 'C20', 'unicode-field-version', ver, 1, wx, 'Unicode %s field version' % nm)
                            self.eqv(s2, 'C20', 'unicode-field-crc', crc, self.crc_of(stored), wx, '%s: Unicode %s field holds the CRC-32 of the stored bytes' % (k, nm))
                            self.seqv(s2, 'C20', 'unicode-field-text', rest, b, wx, '%s: Unicode %s field holds the UTF-8 text' % (k, nm))

    def tail(self, w, st, ents, mode, cd_start, cd_size, base, comment, n=None):
        R, e = self.R, self.e
        n = C(len(ents)) if n is None else n
        pos = add(base, w.taken)
        wh = w.where()
        sig = w.num(4)
        z = None
        if st.facts.const(sig) == Z64E:
            z = {}
            wz = w.where()
            for nm, k in (('size', 8), ('made', 2), ('need', 2), ('disk', 4), ('cddisk', 4), ('ndisk', 8), ('n', 8), ('cdsize', 8), ('cdoff', 8)):
                z[nm] = w.num(k)
            self.eqc(st, 'C04', 'zip64-record-size', z['size'], 44, wz, 'size of the zip64 end record')
            for nm in ('disk', 'cddisk'):
                self.eqc(st, 'C04', 'disk-number', z[nm], 0, wz, 'zip64 end record ' + nm)
            self.eqv(st, 'C13', 'count', z['n'], n, wz, 'zip64 end record: number of entries')
            self.eqv(st, 'C13', 'count', z['ndisk'], n, wz, 'zip64 end record: number of entries on this disk')
            self.eqv(st, 'C09', 'directory-size', z['cdsize'], cd_size, wz, 'zip64 end record: directory size')
            self.eqv(st, 'C09', 'directory-offset', z['cdoff'], cd_start, wz, 'zip64 end record: directory offset')
            wl = w.where()
            self.eqc(st, 'C04', 'signature', w.num(4), Z64L, wl, 'zip64 locator signature')
            wl = w.where()
            self.eqc(st, 'C04', 'disk-number', w.num(4), 0, wl, 'zip64 locator disk')
            self.eqv(st, 'C09', 'zip64-record-offset', w.num(8), pos, wl, 'zip64 locator: offset of the zip64 end record')
            self.eqc(st, 'C04', 'disk-count', w.num(4), 1, wl, 'zip64 locator: number of disks')
            if mode == 'no':
                R.ob('C11', 'no-zip64-end-record', False, wh, 'a zip64 end record is emitted although zip64 is disabled')
            wh = w.where()
            sig = w.num(4)
        elif mode == 'no':
            R.ob('C11', 'no-zip64-end-record', True, wh, 'no zip64 end record')
        if mode == 'force':
            R.ob('C10', 'forced-zip64-end-record', z is not None, wh, 'forced zip64 emits the zip64 end record')
        self.eqc(st, 'C04', 'signature', sig, EOCD, wh, 'end record signature')
        wh = w.where()
        f = {}
        for nm, k in (('disk', 2), ('cddisk', 2), ('ndisk', 2), ('n', 2), ('cdsize', 4), ('cdoff', 4), ('clen', 2)):
            f[nm] = w.num(k)
        for nm in ('disk', 'cddisk'):
            self.eqc(st, 'C04', 'disk-number', f[nm], 0, wh, 'end record ' + nm)
        for nm in ('ndisk', 'n'):
            self.resolved(st, 'C13', 'end record: number of entries (%s)' % nm, f[nm], z and z['n'], n, 16, wh)
        self.resolved(st, 'C09', 'end record: directory size', f['cdsize'], z and z['cdsize'], cd_size, 32, wh)
        self.resolved(st, 'C09', 'end record: directory offset', f['cdoff'], z and z['cdoff'], cd_start, 32, wh)
        wc = w.where()
        c = w.var(f['clen'])
        if comment is not None:
            self.seqv(st, 'C04', 'archive-comment', c, comment, wc, 'the archive comment follows the end record')
        else:
            r = st.facts.range(e.seq_len(c)) == (0, 0)
            R.ob('C04', 'archive-comment', r, wc, 'no archive comment when none was set')
        if not w.end():
            p = w.peek()
            R.ob('C04', 'nothing-after-end-record', False if clean_term(e.plen(p[0])) and not st.lossy else None, p[1], 'bytes follow the end record: %s' % (p[0],))
            R.ob('C08', 'comment-length', False if clean_term(e.plen(p[0])) and not st.lossy else None, p[1], 'more bytes follow the end record than its comment length states')
        else:
            R.ob('C04', 'nothing-after-end-record', True, wc, 'the archive ends with the end record and its comment')
            R.ob('C08', 'comment-length', True, wc, 'archive comment length')


def run_single(R, kinds, modes, fams, close_all=True, max_close=None, ctor='new'):
    """one entry of every kind, then close"""
    ws = WS(R)
    ws.ctor = ctor
    nok = 0
    for mode in modes:
        for kind in kinds:
            for fam in fams:
                fam, _, ws.own = fam.partition(':')
                ws.own = ws.own or 'Unknown'
                st0 = ws.writer(mode)
                l0 = ws.lists(st0)
                for st, _ in ws.families(st0, 'entry', fam):
                    if ws.own != 'Unknown':     # one field of a kind the library knows
                        st = st.assume(eq(length('entry.into.extra_fields'), ONE))
                    outs = ws.write(st, kind, 'entry', 'data')
                    R.count('write_outcomes', len(outs))
                    for o in outs:
                        if o[0] != 'ret':
                            ws.panicked(o, FN[kind], kind)
                            continue
                        ws.failed(o, l0, FN[kind])
                        if not is_ok(o[2]):
                            continue
                        nok += 1
                        if mode in ('no', 'fno') and ws.gen:
                            # the write itself is refused when a record of this entry could not be described
                            d = o[1].ghost.get(('data', 'entry'))
                            for n, v in (('local header offset', length('PRE')), ('data length', ws.e.seq_len(d) if d is not None else None)):
                                if v is None:
                                    continue
                                R.ob('C11', 'needed-means-refused', holds(o[1], le(v, C(SENT32))), FN[kind],
                                     '%s: accepted without zip64 although the %s may need it' % (kind, n))
                        for p in ws.close(o[1]):
                            if p[0] != 'ret':
                                ws.panicked(p, W + 'close', kind)
                                continue
                            ws.failed(p, None, W + 'close')
                            if is_ok(p[2]):
                                ws.archive(p[1], [Entry(kind, 'entry', None)], mode)
                                R.count('archives_parsed')
    R.count('ok_writes', nok)
    R.analysed(ws.e)
    return ws


# --------------------------------------------------------------------------- directories of any length
def directory_leaf(ws, w):
    """the writer field holding the list of written entries, and the type of its elements"""
    e = ws.e
    t = e.T(w.a[0])
    for i, f in enumerate(t['variants'][0]['f']):
        el = e.seq_elem(f['t'])
        if el is not None and el != e.U8 and not isinstance(w.a[2][i], E) and w.a[2][i].k == 'seq':
            return (i,), el
    return None, None


def run_many(R, kind, mode, every=False):
    """one more entry after an arbitrary number of others, then close: counts, directory position, zip64 end records"""
    ws = WS(R)
    e, s = ws.e, ws.s
    closed = set()
    st = ws.writer('force' if mode == 'forced' else mode)
    w = st.mem[('scn', 'writer')]
    path, el = directory_leaf(ws, w)
    if path is None or not ws.gen:
        R.ob('C13', 'directory-understood', None, W + 'close', 'the list of written entries is not a field of the writer')
        return ws
    N = S('n:LISTED', 0, 1 << 40)
    e.atom_ty['LISTED'] = el
    s.cell(st, 'writer', ws.put(w, path, Seq([('s', 'LISTED', ZERO, N)])))
    if mode != 'forced':
        # while zip64 is not in use at most 65535 entries can have been listed; beyond that the writer is in zip64 mode ('forced')
        st.facts = st.facts.assume(le(N, C(SENT16)))
    n1 = add(N, ONE)
    for st1, _ in ws.families(st, 'entry', 'simple'):
        l0 = ws.lists(st1)
        for o in ws.write(st1, kind, 'entry', 'data', 1):
            if o[0] != 'ret':
                ws.panicked(o, FN[kind], kind)
                continue
            ws.failed(o, l0, FN[kind])
            if not is_ok(o[2]):
                continue
            st2 = o[1]
            lst = st2.mem[('scn', 'writer')].a[2][path[0]]
            ok = not isinstance(lst, E) and lst.k == 'seq' and len(lst.a) == 2 and lst.a[0] == ('s', 'LISTED', ZERO, N) and lst.a[1][0] == 'e'
            if not ok:
                ok = None if isinstance(lst, E) or lst.k != 'seq' or st2.lossy else same(st2, e.seq_len(lst), n1)
                ok = None if ok else ok
            R.ob('C13', 'listed-after-the-others', ok, FN[kind], '%s: one record is added behind those of the earlier entries' % kind if ok else '%s: the directory list becomes %s' % (kind, str(lst)[:120]))
            if mode in ('no', 'fno'):
                r = holds(st2, le(n1, C(SENT16)))
                R.ob('C11', 'too-many-entries-refused', r, FN[kind], '%s: without zip64 the 65536th entry is refused' % kind)
            cd0 = e.seq_len(st2.ghost[('out', 'W')])
            nchunks = len(ws.chunks(st2))
            # one representative for each setting of the writer's flags (all of them in the thorough run)
            key = ws.flags(st2)
            if key in closed and not every:
                continue
            closed.add(key)
            e.unroll_both = 0
            outs = ws.close(st2)
            e.unroll_both = 5
            for p in outs:
                if p[0] != 'ret':
                    ws.panicked(p, W + 'close', kind)
                    continue
                ws.failed(p, None, W + 'close')
                if is_ok(p[2]):
                    R.count('archives_parsed')
                    directory_tail(ws, p[1], mode, cd0, n1, nchunks)
    R.analysed(e)
    return ws


def directory_tail(ws, st, mode, cd0, n, nchunks):
    """the end records behind a directory of unknown length"""
    R, e = ws.R, ws.e
    out = st.ghost[('out', 'W')]
    ch = ws.chunks(st)[nchunks:]
    # the end records are the last chunks: from the first one that starts with an end record's signature
    total = e.seq_len(out)
    st = st.assume(le(total, C(1 << 62)))
    if st is None:
        return
    k = None
    for i, (c, _) in enumerate(ch):
        b = c.a[:4]
        if len(b) == 4 and all(x[0] == 'e' for x in b):
            sg = st.facts.const(cat_bytes([x[1] for x in b]))
            if sg in (Z64E, EOCD):
                k = i
                break
    if k is None:
        R.ob('C13', 'end-records-understood', None, W + 'close', 'the end records are not recognised')
        return
    tail_len = ZERO
    for c, _ in ch[k:]:
        tail_len = add(tail_len, e.seq_len(c))
    pos = sub(total, tail_len)
    try:
        w = Walk(e, st, ch[k:])
        ws.tail(w, st, None, 'force' if mode == 'forced' else mode, cd0, sub(pos, cd0), pos, None, n)
    except Short as x:
        for p in ('C04', 'C08'):
            R.ob(p, 'output-parses', False if x.clean and not st.lossy else None, x.where, 'the end records do not parse: ' + x.msg)

    # one arbitrary step of the loop over the list: it emits one central record
    since = [ev[1] for ev in st.events() if ev[0] == 'loop']
    for lid in since:
        info = e.loops.get(lid)
        if not info or not any(contains_atom(x, 'LISTED') for a in info['alts'] for x in a):
            continue
        for evs in info['alts']:
            parts = [ev[2] for ev in evs if ev[0] == 'write' and ev[1] == 'W']
            ok, sg = False, None
            if parts:
                b = e.seq([q for c in parts for q in c.a]).a[:4]
                ok = None
                if len(b) == 4 and all(x[0] == 'e' and isinstance(x[1], E) for x in b):
                    sg = st.facts.const(cat_bytes([x[1] for x in b]))
                    ok = sg == CDH if sg is not None else None
                    n = sum(1 for c in parts if c.a[:4] == tuple(b) or list(c.a[:4]) == list(b))
                    ok = ok and n <= 1
            R.ob('C13', 'one-record-per-listed-entry', ok, W + 'close', 'a step of the directory loop emits one central record' if ok else
                 'a step of the directory loop emits no record for its entry' if not parts else 'a step of the directory loop emits %s' % (str(parts[0])[:80]))


def contains_atom(ev, atom):
    return any(atom in str(x) for x in ev)


def run_pair(R, k1, k2, mode, every=False):
    """two entries of any kinds one after the other, then close: the records of both"""
    ws = WS(R)
    st = ws.writer(mode)
    l0 = ws.lists(st)
    seen, seen2 = set(), set()
    for s1, _ in ws.families(st, 'entry', 'simple'):
        for o in ws.write(s1, k1, 'entry', 'data', 1):
            if o[0] != 'ret':
                continue
            ws.failed(o, l0, FN[k1])
            if not is_ok(o[2]):
                continue
            key = ws.flags(o[1])
            if key in seen and not every:
                continue
            seen.add(key)
            l1 = ws.lists(o[1])
            for s2, _ in ws.families(o[1], 'second', 'simple'):
                for o2 in ws.write(s2, k2, 'second', 'more', 1):
                    if o2[0] != 'ret':
                        continue
                    ws.failed(o2, l1, FN[k2])
                    if not is_ok(o2[2]):
                        continue
                    key2 = (key, ws.flags(o2[1]))
                    if key2 in seen2 and not every:
                        continue
                    seen2.add(key2)
                    for p in ws.close(o2[1]):
                        if p[0] != 'ret':
                            continue
                        ws.failed(p, None, W + 'close')
                        if is_ok(p[2]):
                            ws.archive(p[1], [Entry(k1, 'entry', None), Entry(k2, 'second', None)], mode)
                            R.count('archives_parsed')
    R.analysed(ws.e)
    return ws


def run_after_failure(R, k1, k2, mode, every=False):
    """a write that fails in any way, then another one that succeeds, then close: only the second entry is in the directory"""
    ws = WS(R)
    st = ws.writer(mode)
    l0 = ws.lists(st)
    seen = set()
    for s1, _ in ws.families(st, 'entry', 'simple'):
        for o in ws.write(s1, k1, 'entry', 'data', 1):
            if o[0] != 'ret' or is_ok(o[2]):
                continue
            key = (len(ws.chunks(o[1])), ws.flags(o[1]))
            if key in seen and not every:
                continue
            seen.add(key)
            skip = len(ws.chunks(o[1]))
            s1b = o[1].copy()
            # what was reported is settled; later outcomes are judged on their own failures
            s1b.ev = drop_errors(s1b)
            for s2, _ in ws.families(s1b, 'second', 'simple'):
                for o2 in ws.write(s2, k2, 'second', 'more', 1):
                    if o2[0] != 'ret' or not is_ok(o2[2]):
                        continue
                    for p in ws.close(o2[1]):
                        if p[0] == 'ret' and is_ok(p[2]):
                            ws.archive(p[1], [Entry(k2, 'second', None)], mode, skip=skip)
                            R.count('archives_parsed')
    R.count('failures_continued', len(seen))
    R.analysed(ws.e)
    return ws


def drop_errors(st):
    ev = None
    for x in st.events():
        if x[0] == 'write':
            ev = (ev, x)
    return ev


def run_empty(R, mode, comment, ctor='new'):
    """an archive without entries, with and without a comment"""
    ws = WS(R)
    ws.ctor = ctor
    s, e = ws.s, ws.e
    st, w = ws.new(mode)
    want = None
    if comment:
        e.atom_ty['CMT'] = e.U8
        want = Seq([('s', 'CMT', ZERO, S('n:CMT', 0, 1 << 40))])
        s.cell(st, 'writer', w)
        outs = s.call(W + 'comment', [Ref(('scn', 'writer')), want], st)
        st, = [o[1] for o in outs if o[0] == 'ret']
    else:
        s.cell(st, 'writer', w)
    ws.gen = None
    n = 0
    for p in ws.close(st):
        if p[0] != 'ret':
            ws.panicked(p, W + 'close', None)
            continue
        ws.failed(p, None, W + 'close')
        n += 1
        if is_ok(p[2]):
            ws.archive(p[1], [], mode, want, pre=False)
            R.count('archives_parsed')
        elif comment and not [ev for ev in p[1].events() if ev[0] == 'ioerr']:
            # refused without a sink failure: only because the comment is too long
            ok = holds(p[1], lt(C(SENT16), length_of(want)))
            R.ob('C08', 'comment-refused-only-when-too-long', ok, W + 'close', 'the archive comment is refused only when it exceeds 65535 bytes')
    R.count('close_outcomes', n)
    R.analysed(e)
    return ws


def length_of(seq):
    return seq.a[0][3]
