"""C38: readers and writers hold exactly what they were given. The tokio constructors are analysed with the rules of the base ones; accessors,
conversions and clones are compared with the value that was put in."""
import importlib
from rulelib import *
from rules_values import Ev, veq, teq, is_ref
import rules_read as rr
import rules_write as rw

VIA = ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C15', 'C16', 'C18', 'C20', 'C24', 'C25', 'C27')


def run_via(R, mod, fn, args, kw):
    """the rules of a property, on objects made by a tokio constructor"""
    getattr(importlib.import_module(mod), fn)(Mapped(R, 'C38', VIA, 'through the tokio constructor'), *args, **dict(kw))


def run_holders(R):
    x = Ev(R, ('C38',))
    e, s = x.e, x.s
    SEEK, MEM, FS = 'base::read::seek::ZipFileReader::', 'base::read::mem::ZipFileReader::', 'tokio::read::fs::ZipFileReader::'
    STR, WR = 'base::read::stream::ZipFileReader::', 'base::write::ZipFileWriter::'

    def is_(st, v, want, f, what):
        v = deref(e, st, v)
        r = veq(e, st, v, want)
        if r is None and not isinstance(v, E) and not isinstance(want, E) and v.k == 'sym' and want.k == 'sym':
            r = v is want or (None if st.lossy or not clean(v) else False)
        x.ob('C38', 'gives-back-what-it-holds', r, f, '%s %s, given was %s' % (what, str(v)[:80], str(want)[:80]))

    # readers made from parts
    for pre, held in ((SEEK, ('into_inner', 'inner_mut')), (MEM, ('data',)), (FS, ('path',))):
        f = s.find(pre + 'from_raw_parts')
        a = e.mk_sym('src', f['locals'][1])
        z = e.mk_sym('file', f['locals'][2])
        for st, rd in x.run(f, [a, z], State()):
            for op in held + ('file',):
                for st1, v in x.run(pre + op, [rd], st):
                    is_(st1, v, z if op == 'file' else a, pre + op, '%s() is' % op)
                    if op == 'inner_mut' and not isinstance(v, E) and v.k == 'ref':
                        # what the caller does to the source through it reaches the reader's own source, and nothing else
                        new = e.mk_sym('other', f['locals'][1])
                        e.wr(st1, v, new)
                        cell = [c for c in st1.mem if c[:1] == ('scn',) and st1.mem[c] is not None]
                        for st2, w in x.run(pre + 'into_inner', [st1.mem[v.a[0]]], st1) if v.a[0] in st1.mem else ():
                            is_(st2, w, new, pre + 'inner_mut', 'after replacing the source through inner_mut() the reader holds')
    # the stream reader
    f = s.find(STR + 'new')
    a = e.mk_sym('R', f['locals'][1])
    for st, rd in x.run(f, [a], State()):
        for st1, v in x.run(STR + 'into_inner', [rd], st):
            is_(st1, v, a, STR + 'into_inner', 'into_inner() is')
    fr, fm = s.find(STR + 'reader'), s.find(STR + 'reader_mut')
    bt = e.T(fr['locals'][1])['ty']
    z = e.mk_sym('reading', bt)
    st = State()
    c = x.cell(st, z)
    for st1, v in x.run(fr, [c], st):
        for st2, w in x.run(fm, [c], st1):
            same_ref = not isinstance(v, E) and not isinstance(w, E) and v.k == 'ref' and w.k == 'ref' and (v.a[0], [q[:3] for q in v.a[1]]) == (w.a[0], [q[:3] for q in w.a[1]])
            x.ob('C38', 'gives-back-what-it-holds', True if same_ref or veq(e, st2, v, w) is True else None if st2.lossy else False, fm, 'reader() is %s but reader_mut() is %s' % (str(v)[:80], str(w)[:80]))
    # the writer
    for ctor in ('new', 'with_tokio'):
        if not s.has(WR + ctor):
            continue
        f = s.find(WR + ctor)
        a = e.mk_sym('W', f['locals'][1])
        for st, w in x.run(f, [a], State()):
            st.ghost[('out', 'W')] = e.seq([])
            c = x.cell(st, w)
            for st1, v in x.run(WR + 'inner_mut', [c], st):
                is_(st1, v, a, WR + 'inner_mut', 'inner_mut() is')
                x.ob('C38', 'accessor-changes-nothing', veq(e, st1, deref(e, st1, c), w), WR + 'inner_mut', 'inner_mut() changes the writer from %s to %s' % (str(w)[:100], str(deref(e, st1, c))[:100]))
            for o in s.call(WR + 'close', [w], st):
                if o[0] == 'ret' and is_ok(o[2]):
                    is_(o[1], o[2].a[2][0], a, WR + 'close', 'close() returns')
    # a second archive comment replaces the first, and nothing else
    f = s.find(WR + 'new')
    for st, w in x.run(f, [e.mk_sym('W', f['locals'][1])], State()):
        ct = s.find(WR + 'comment')['locals'][2]
        for n in ('C1', 'C2'):
            e.atom_ty[n] = e.U8
        c1, c2 = (Seq([('s', n, ZERO, S('n:' + n, 0, 1 << 40))]) for n in ('C1', 'C2'))
        one = [(st1, deref(e, st1, c)) for c in [x.cell(st, w)] for st1, _ in x.run(WR + 'comment', [c, c2], st)]
        st0 = st.copy()
        c = x.cell(st0, w)
        two = [(st2, deref(e, st2, c)) for st1, _ in x.run(WR + 'comment', [c, c1], st0) for st2, _ in x.run(WR + 'comment', [c, c2], st1)]
        for st1, v1 in one:
            for st2, v2 in two:
                x.ob('C38', 'last-comment-wins', veq(e, st2, v2, v1), WR + 'comment', 'after two comments the writer is %s, after only the second %s' % (str(v2)[:120], str(v1)[:120]))
    # copies are equal to the original
    n = 0
    for i in e.I:
        if i['local'] and i['blocks'] and i.get('root') and not i.get('promoted') and i.get('fn_name') == 'clone' and i['args'] == 1 and is_ref(e, i['locals'][1]):
            base = e.T(i['locals'][1])['ty']
            if e.T(base)['k'] != 'adt' or i['locals'][0] != base:
                continue
            n += 1
            z = e.mk_sym('orig', base)
            for st, v in x.run(i, [z], State()):
                x.ob('C38', 'clone-is-equal', veq(e, st, v, z), i, 'the clone is %s' % str(v)[:150])
    R.count('clones', n)
    R.analysed(e)


def run_helpers(R):
    """crc32() and compress(), which prepare precompressed entries; the requested compression level"""
    ws = rw.WS(R)
    e, s = ws.e, ws.s
    # crc32
    fs = [i for n, l in s.byname.items() for i in l if i.get('fn_name') == 'crc32' and i['args'] == 1 and e.T(i['locals'][0])['s'] == 'u32' and e.T(i['locals'][1])['s'] == '&[u8]']
    if not fs:
        R.ob('C39', 'crc-helper', None, 'base::write::crc32', 'not found')
    d = ws.data('D')
    for i in fs:
        st = State()
        for o in s.call(i, [s.cell(st, 'D', d)], st):
            if o[0] != 'ret':
                R.ob('C39', 'crc-helper', None if o[1].lossy or not cond_clean(e, o[2].get('cond'), o[1], o[2].get('ops')) else False, i['name'], 'crc32() panics: %s' % o[2]['kind'])
                continue
            want = ws.crc_of(d)
            R.ob('C39', 'crc-helper', same(o[1], o[2], want) if isinstance(o[2], E) else None, '%s %s' % (i['name'], i.get('span')), 'crc32() is %s, expected %s' % (show(o[2]) if isinstance(o[2], E) else o[2], show(want)))
    # compress, and the same entry written whole
    fs = [i for n, l in s.byname.items() for i in l if i.get('fn_name') == 'compress' and i['args'] == 2 and i['vis'] and e.T(i['locals'][1])['s'] == '&entry::ZipEntry' and e.T(i['locals'][2])['s'] == '&[u8]']
    if not fs:
        R.ob('C39', 'compress-helper', None, 'base::write::compress', 'not found')
    for i in fs:
        wh = '%s %s' % (i['name'], i.get('span'))
        st0 = State()
        c = [s.cell(st0, 'cE', ws.esym('entry')), s.cell(st0, 'cD', d)]
        helper = {}
        for o in s.call(i, c, st0):
            R.count('outcomes')
            vs = [vn for s1, q in ws.attr(o[1], 'entry', 'compression') for _, vn, _ in fork_variant(e, q, s1)]
            vn = vs[0] if len(vs) == 1 else None
            if o[0] != 'ret':
                # a method the library cannot encode is refused by a panic
                R.ob('C39', 'compress-helper', True if vn and vn not in rw.ENCODER and vn != 'Stored' else None if vn is None or o[1].lossy or not cond_clean(e, o[2].get('cond'), o[1], o[2].get('ops')) else False, wh,
                     'compress() of %s panics: %s' % (vn, o[2]['kind']))
                continue
            q = e.M.seqof(o[1], o[2])[1] if not isinstance(o[2], E) else None
            if q is None or vn is None:
                R.ob('C39', 'compress-helper', None, wh, 'compress() of %s is %s' % (vn, o[2]))
                continue
            if vn == 'Stored':
                R.ob('C39', 'compress-helper', seq_same(e, o[1], q, d), wh, 'compress() of a stored entry is %s' % (q,))
                continue
            info = s.M.enc_info.get(q.a[0][1]) if len(q.a) == 1 and q.a[0][0] == 's' and hasattr(s.M, 'enc_info') else None
            if info is None:
                R.ob('C39', 'compress-helper', None if o[1].lossy or '?' in str(q) or not clean(q) else False, wh, 'compress() of %s is %s, not the output of an encoder' % (vn, q))
                continue
            codec, lvl, fed = info
            helper.setdefault(vn, []).append((o[1], lvl))
            p = q.a[0]
            R.ob('C39', 'compress-helper', codec == rw.ENCODER.get(vn), wh, 'compress() of %s encodes with %s' % (vn, codec))
            R.ob('C39', 'compress-helper', seq_same(e, o[1], fed, d), wh, 'compress() of %s feeds %s to the encoder, the data is %s' % (vn, fed, d))
            R.ob('C39', 'compress-helper', same(o[1], p[2], ZERO) and same(o[1], p[3], length(p[1])), wh, 'compress() of %s returns the complete output' % vn)
            if vn == 'Deflate':
                R.ob('C39', 'requested-level', veq(e, o[1], lvl, ws.level('entry')), wh, 'compress(): the deflate encoder is created at level %s' % (lvl,))
        # written whole by the library itself: the level is the same for every method
        for st, _ in ws.families(ws.writer('def'), 'entry', 'methods'):
            for o in ws.write(st, 'whole', 'entry', 'D'):
                if o[0] != 'ret' or not is_ok(o[2]):
                    continue
                vs = [vn for s1, q in ws.attr(o[1], 'entry', 'compression') for _, vn, _ in fork_variant(e, q, s1)]
                if len(vs) != 1 or vs[0] not in helper:
                    continue
                used = [s.M.enc_info[p[1]] for p in o[1].ghost[('out', 'W')].a if p[0] == 's' and p[1] in s.M.enc_info]
                for codec, lvl, fed in used:
                    # (the paths of the two that belong together are not known: some level must agree)
                    rs = [veq(e, o[1], lvl, l2) for _, l2 in helper[vs[0]]]
                    r = True if True in rs else None if None in rs else False
                    R.ob('C39', 'same-as-the-writer', r, wh, '%s: compress() encodes at %s, write_entry_whole at %s' % (vs[0], [l2 for _, l2 in helper[vs[0]]], lvl))
    # the option names the level
    for n, l in s.byname.items():
        for i in l:
            if i['args'] == 1 and e.T(i['locals'][1])['s'] == 'spec::compression::DeflateOption' and e.T(i['locals'][0])['s'] == 'async_compression::Level':
                v = e.mk_sym('opt', i['locals'][1])
                for o in s.call(i, [v], State()):
                    if o[0] != 'ret':
                        continue
                    for s1, vn, x in fork_variant(e, v, o[1]):
                        if vn != 'Other':
                            continue
                        r = o[2]
                        k = [q['n'] for q in e.T(r.a[0])['variants']] if not isinstance(r, E) and r.k == 'agg' else None
                        ok = None if k is None or s1.lossy else k[r.a[1]] == 'Precise' and teq(s1, r.a[2][0], x.a[2][0])
                        R.ob('C39', 'other-is-precise', ok, '%s %s' % (i['name'], i.get('span')), 'DeflateOption::Other(n) is level %s' % (r,))
    R.analysed(e)
