"""C28 (and the parts of C01, C05, C08 that rest on it): the grammar of extra fields.

parse:  the extra-field parser (found by its type: bytes .. -> Result<Vec<ExtraField>>) is run on an area of unknown
        length and bytes. Bounded part: every path with at most `cap` fields; each returned list is compared with the
        list the specification gives for the same bytes. Inductive part: where the loop's summary shows a list that is
        only appended to and a cursor, one arbitrary iteration is checked the same way.
emit:   the per-element and whole-list functions (ExtraField -> Vec<u8> / usize) are run on an unknown field of each kind
        and compared with the specified layout."""
from rulelib import *
from rules_read import RS

SAT = C(0xffffffff)


def ge(a, b):
    return le(b, a)


def le_x(p, n, atom='X'):
    return cat_bytes([elem(atom, add(p, C(i))) for i in range(n)])


class XP:
    """comparison of one parsed field with the bytes at position p of the area"""

    def __init__(self, R, e, s, rs, where, usz, csz, nints):
        self.R, self.e, self.s, self.rs, self.where, self.usz, self.csz, self.nints = R, e, s, rs, where, usz, csz, nints

    def ob(self, rule, ok, msg, pids=('C28',)):
        for p in pids:
            self.R.ob(p, rule, ok, self.where, msg)
        return ok

    def num(self, st, v):
        v = deref(self.e, st, v)
        while not isinstance(v, E) and v.k == 'agg' and len(v.a[2]) == 1:
            v = v.a[2][0]
        return v if isinstance(v, E) else None

    def bytes_are(self, st, v, a, n, rule, msg):
        _, q = self.s.M.seqof(st, v)
        want = self.e.seq([('s', 'X', a, n)]) if n is not ZERO else self.e.seq([])
        self.ob(rule, seq_same(self.e, st, q, want) if q is not None else None, '%s is %s, the area has %s' % (msg, str(q)[:100], str(want)[:80]))

    def number_is(self, st, v, want, rule, msg, pids=('C28',)):
        v = self.num(st, v)
        self.ob(rule, same(st, v, want) if v is not None else None, '%s is %s, the area says %s' % (msg, show(v)[:80] if v is not None else '?', show(want)[:80]), pids)

    def field(self, st, x, p):
        """the element x against the field at p; returns the position after it"""
        e, rs = self.e, self.rs
        hid, size = le_x(p, 2), le_x(add(p, C(2)), 2)
        q = add(p, C(4))
        for st, n, v in fork_variant(e, x, st):
            self.one(st, n, v, hid, size, q)
        return add(q, size)

    def one(self, st, n, v, hid, size, q):
        e, rs = self.e, self.rs
        kinds = {'Zip64ExtendedInformation': 1, 'InfoZipUnicodeComment': 0x6375, 'InfoZipUnicodePath': 0x7075}
        inside = holds(st, le(add(q, size), length('X')))
        self.ob('declared-size-within-area', inside, 'a field is produced although its declared size may run past the area')
        if n in kinds:
            self.ob('kind-by-id', same(st, hid, C(kinds[n])), 'a field of id %s is read as %s' % (show(hid), n))
            self.R.count('fields')
        elif n == 'Unknown':
            for k, num in kinds.items():
                st2 = st.assume(eq(hid, C(num)))
                self.ob('kind-by-id', True if st2 is None else None if st2.lossy else False, 'id %#x is kept as an unknown field' % num)
        else:
            self.ob('kind-by-id', None, 'kind %s' % n)
            return
        body = v.a[2][0]
        if n == 'Unknown':
            self.number_is(st, rs.named(body, 'header_id'), hid, 'unknown-verbatim', 'header_id')
            self.number_is(st, rs.named(body, 'data_size'), size, 'unknown-verbatim', 'data_size')
            self.bytes_are(st, rs.named(body, 'content'), q, size, 'unknown-verbatim', 'content')
        elif n == 'Zip64ExtendedInformation':
            self.number_is(st, rs.named(body, 'header_id'), hid, 'zip64-payload', 'header_id')
            self.zip64(st, body, size, q)
        else:
            for st1, vn, iv in fork_variant(e, body, st):
                ver = elem('X', q)
                if vn == 'V1':
                    self.ob('unicode-version', same(st1, ver, C(1)), 'version %s read as version 1' % show(ver))
                    self.ob('unicode-payload', holds(st1, ge(size, C(5))), 'a payload shorter than 5 bytes is read as version 1')
                    self.number_is(st1, rs.named(iv, 'crc32'), le_x(add(q, C(1)), 4), 'unicode-payload', 'crc32')
                    self.bytes_are(st1, rs.named(iv, 'unicode'), add(q, C(5)), sub(size, C(5)), 'unicode-payload', 'text')
                elif vn == 'Unknown':
                    st2 = st1.assume(eq(ver, C(1)))
                    self.ob('unicode-version', True if st2 is None else None if st2.lossy else False, 'version 1 not recognised')
                    self.number_is(st1, rs.named(iv, 'version'), ver, 'unicode-payload', 'version')
                    self.bytes_are(st1, rs.named(iv, 'data'), add(q, C(1)), sub(size, C(1)), 'unicode-payload', 'data')
                else:
                    self.ob('unicode-version', None, vn)

    def zip64(self, st, body, size, q):
        """values present exactly for saturated sizes, in order, as far as the payload reaches"""
        rs = self.rs
        todo = [(st, ZERO)]
        for nm, w, sat in (('uncompressed_size', 8, self.usz), ('compressed_size', 8, self.csz), ('relative_header_offset', 8, None), ('disk_start_number', 4, None)):
            f = rs.named(body, nm)
            if f is None:
                self.ob('zip64-payload', None, nm)
                return
            nxt = []
            for st, at in todo:
                for st1, val in rs.opt(st, f):
                    room = ge(size, add(at, C(w)))
                    pids = ('C28', 'C05')
                    if val is not None:
                        if sat is not None:
                            self.ob('zip64-' + nm.replace('_', '-'), same(st1, sat, SAT), '%s is taken from the zip64 field although the 32-bit field is %s' % (nm, show(sat)), pids)
                        self.ob('zip64-' + nm.replace('_', '-'), holds(st1, room), '%s is taken from bytes beyond the payload' % nm, pids)
                        self.number_is(st1, val, le_x(add(q, at), w), 'zip64-' + nm.replace('_', '-'), nm, pids)
                        nxt.append((st1, add(at, C(w))))
                    else:
                        st2 = st1.assume(room)
                        if st2 is not None and sat is not None:
                            st2 = st2.assume(eq(sat, SAT))
                        ok = True if st2 is None else None if st2.lossy or (sat is None and self.nints != 2) else False
                        self.ob('zip64-' + nm.replace('_', '-'), ok, '%s is missing although the 32-bit field is saturated and the payload holds it' % nm, pids)
                        nxt.append((st1, at))
            todo = nxt

    def refusal(self, st, p):
        """an error is justified by the field at p"""
        hid, size = le_x(p, 2), le_x(add(p, C(2)), 2)
        q = add(p, C(4))
        L = length('X')
        over = not_(le(add(q, size), L))
        st1 = st.assume(ge(L, q))           # otherwise: an incomplete header, may be refused
        if st1 is not None:
            st1 = st1.assume(not_(over))
        if st1 is None:
            return True
        uni = [st1.assume(eq(hid, C(k))) for k in (0x6375, 0x7075)]
        rest = st1.assume(not_(eq(hid, C(0x6375))))
        rest = rest.assume(not_(eq(hid, C(0x7075)))) if rest is not None else None
        if rest is not None:
            return None if rest.lossy else False
        for u in uni:
            u = u.assume(ge(size, C(1))) if u is not None else None
            if u is None:
                continue
            v = u.assume(ge(size, C(5)))
            if v is not None:
                return None if v.lossy else False
            v = u.assume(not_(eq(elem('X', q), C(1))))
            if v is not None:
                return None if v.lossy else False
        return True


def area(e, st):
    e.atom_ty['X'] = e.U8
    n = length('X')
    st.facts = st.facts.assume(le(n, C(65535)))
    return e.seq([('s', 'X', ZERO, n)])


def run_parse(R, cap=1):
    """cap = None: one arbitrary iteration (induction); otherwise every path with at most cap fields"""
    rs = RS.__new__(RS)
    rs.R, rs.s, rs.nx = R, Sc(False), None
    rs.e = e = rs.s.e
    s = rs.s
    e.max_steps = 6000000
    e.iter_cap = cap
    e.max_disj = 4000
    c = find_extra_parser(s)
    if not c:
        R.ob('C28', 'anchor', None, '', 'no function with the role of the extra-field parser')
        return
    inst = c[0]
    where = '%s %s' % (nname(inst), inst.get('span') or '')
    st = State()
    data = area(e, st)
    usz, csz = S('usz', 0, (1 << 32) - 1), S('csz', 0, (1 << 32) - 1)
    args, ints = [], [usz, csz]
    nints = 0
    for k in range(inst['args']):
        t = inst['locals'][k + 1]
        if e.T(t)['k'] == 'int':
            args.append(ints[nints] if nints < 2 else S('x%d' % k, 0, (1 << 32) - 1))
            nints += 1
        elif e.seq_elem(t) is not None:
            args.append(s.cell(st, 'area', data) if e.T(t)['k'] == 'ref' else data)
        else:
            args.append(e.mk_sym('arg%d' % k, t))
    if nints < 2:
        R.ob('C28', 'anchor', None, where, 'parser signature not understood')
        return
    X = XP(R, e, s, rs, where, usz, csz, nints)
    for o in s.call(inst, args, st):
        R.count('outcomes')
        if o[0] != 'ret':
            p = o[2]
            if cap is None:
                continue        # what the first iterations can reach is decided by the bounded run
            R.ob('C01', 'no-panic', False if rs.cond_clean(p.get('cond'), o[1], p.get('ops')) and not o[1].lossy else None, '%s %s' % (p['fn'], p['sp']), 'extra fields: %s (condition %s)%s' % (
                p['kind'], str(p.get('cond'))[:160], ' while refusing a declared size that runs past the area' if str(p['kind']).endswith('overflow:Sub') and overrun(o[1], cap) else ''))
            continue
        st1, v = o[1], o[2]
        R.ob('C01', 'no-panic', True, where, '')
        for ev in st1.events():
            if ev[0] == 'alloc':
                n = ev[1]
                if isinstance(n, E):
                    ok = st1.facts.range(n)[1] <= 65536 or st1.facts.decide(le(n, mulc(length('X'), 4))) is True
                    R.ob('C02', 'allocation-bounded', ok or (None if st1.lossy or not clean_term(n) else False), '%s %s' % (ev[2], ev[3]), 'extra fields: reserves %s' % show(n)[:120])
        if cap is None:
            induct(R, e, s, X, st1, v, inst, where)
            continue
        if is_ok(v):
            lst = v.a[2][0]
            _, q = s.M.seqof(st1, lst)
            if q is None or any(p[0] != 'e' for p in q.a):
                R.ob('C28', 'list-understood', None, where, str(lst)[:200])
                continue
            p = ZERO
            for part in q.a:
                p = X.field(st1, part[1], p)
            L = length('X')
            rest = sub(L, p)
            R.ob('C28', 'list-understood', True, where, '')
            R.ob('C28', 'stays-within-area', holds(st1, ge(L, p)), where, 'the fields produced extend past the area')
            st2 = st1.assume(ge(rest, C(5)))
            R.ob('C28', 'every-field-produced', True if st2 is None else None if st2.lossy or not clean_term(rest) else False, where, 'an area with more fields is accepted after %d' % len(q.a))
            st2 = st1.assume(eq(rest, C(4)))
            R.ob('C28', 'every-field-produced', True if st2 is None else None if st2.lossy else False, where, 'a last field without payload bytes is dropped')
        elif is_err(v):
            refused(R, e, s, X, st1, inst, where, cap)
        else:
            R.ob('C28', 'list-understood', None, where, str(v)[:200])
    R.analysed(e)


def overrun(st, cap):
    p = ZERO
    for k in range(cap + 1):
        end = add(add(p, C(4)), le_x(add(p, C(2)), 2))
        d = st.facts.decide(le(end, length('X')))
        if d is False:
            return True
        st = st.assume(le(end, length('X')))
        if st is None:
            return True
        p = end
    return False


def cursor_of(e, info):
    """the loop variable that starts at 0 and moves by 4 + the declared size of the field at its position"""
    for loc, (v, v0, k, _) in info['syms'].items():
        if not isinstance(v, E) or v0 is not ZERO or not info['backs']:
            continue
        want = add(add(v, C(4)), le_x(add(v, C(2)), 2))
        try:
            if all(isinstance(e.getloc(b, loc), E) and same(b, e.getloc(b, loc), want) is True for b in info['backs']):
                return v
        except Exception:
            continue
    return None


def induct(R, e, s, X, st, v, inst, where):
    if not hasattr(e, '_ind'):
        e._ind = {}
        for atom, (lid, alts) in e.loop_atoms.items():
            info = e.loops.get(lid)
            if info is None:
                continue
            cur = cursor_of(e, info)
            if cur is None:
                continue
            e._ind[atom] = (lid, cur)
            for b, alt in zip(info['backs'], alts):
                ok = len(alt.a) == 1 and alt.a[0][0] == 'e'
                R.ob('C28', 'one-field-per-step', True if ok else None, where, 'one step appends %s' % str(alt)[:100])
                if ok:
                    X.field(b, alt.a[0][1], cur)
    L = length('X')
    if is_ok(v):
        _, q = s.M.seqof(st, v.a[2][0])
        if q is None:
            R.ob('C28', 'induction', None, where, str(v)[:100])
            return
        if not q.a:
            cur = ZERO
        elif len(q.a) == 1 and q.a[0][0] == 's' and q.a[0][1] in e._ind and q.a[0][2] is ZERO:
            cur = e._ind[q.a[0][1]][1]
        else:
            R.ob('C28', 'induction', None, where, 'the list is %s' % str(q)[:100])
            return
        R.ob('C28', 'induction', True, where, '')
        st2 = st.assume(ge(sub(L, cur), C(5)))
        R.ob('C28', 'every-field-produced', True if st2 is None else None, where, 'an area with more fields may be accepted')
        R.ob('C28', 'stays-within-area', True if holds(st, ge(L, cur)) is True else None, where, 'the fields produced may extend past the area')
    elif is_err(v):
        curs = [c for _, c in e._ind.values()]
        R.ob('C28', 'refusal-justified', True if any(X.refusal(st, c) is True for c in curs) else None, where, 'a well-formed area may be refused')


def refused(R, e, s, X, st, inst, where, cap):
    """some field of the area, read in order, justifies the error"""
    p = ZERO
    verdict = False
    cur = st
    for k in range(cap + 1):
        r = X.refusal(cur, p)
        if r is True:
            verdict = True
            break
        size = le_x(add(p, C(2)), 2)
        cur = cur.assume(le(add(p, add(size, C(4))), length('X')))
        if cur is None:
            verdict = True
            break
        p = add(p, add(size, C(4)))
    if verdict is False and st.lossy:
        verdict = None
    R.ob('C28', 'refusal-justified', verdict, where, 'a well-formed area is refused (%s)' % ', '.join(str(c)[:40] for c in ())) 


# ------------------------------------------------------------------------------------------ serialisation
def run_emit(R):
    s = Sc(False)
    e = s.e
    e.lemma = True
    rs = RS.__new__(RS)
    rs.R, rs.s, rs.e, rs.nx = R, s, e, None
    fns = s.M.elem_fns()
    if 'bytes' not in fns:
        R.ob('C28', 'anchor', None, '', 'no function with the role of the field serialiser')
        return
    ty = e.T(e.I[fns['bytes']]['locals'][1])['ty']
    where = {k: '%s %s' % (nname(e.I[i]), e.I[i].get('span') or '') for k, i in fns.items()}
    st0 = State()
    x = e.mk_sym('x', ty)
    for st, n, v in fork_variant(e, x, st0):
        body = v.a[2][0]
        subs = [(st, None, body)]
        t = e.T(body.a[1] if body.k == 'sym' else body.a[0])
        if t['k'] == 'adt' and t['kind'] == 'enum':
            subs = fork_variant(e, body, st)
        for st1, vn, iv in subs:
            full = Agg(v.a[0], v.a[1], (iv,))
            for st2, want, cond in layout(rs, st1, n, vn, iv):
                emit_one(R, rs, st2, full, n, vn, want, cond, fns, where)
    run_lists(R, s, e, ty, fns)
    R.analysed(e)


def seqlen(rs, st, v):
    _, q = rs.s.M.seqof(st, v)
    return rs.e.seq_len(q) if q is not None else None


def layout(rs, st, n, vn, iv):
    """[(state, payload parts, id term)]: the specified bytes, as [('num', term, width) | ('seq', value)]"""
    e = rs.e
    out = []

    def num(nm):
        f = rs.named(iv, nm)
        while f is not None and not isinstance(f, E) and f.k == 'sym' and e.T(f.a[1])['k'] == 'adt':
            f = e.expand(f, 0)
            f = f.a[2][0] if len(f.a[2]) == 1 else None
        while f is not None and not isinstance(f, E) and f.k == 'agg' and len(f.a[2]) == 1:
            f = f.a[2][0]
        return f
    if n == 'Unknown':
        return [(st, [('seq', rs.named(iv, 'content'))], ('id', num('header_id'), num('data_size')))]
    if n.startswith('InfoZip'):
        i = C(0x6375 if 'Comment' in n else 0x7075)
        if vn == 'V1':
            return [(st, [('num', C(1), 1), ('num', num('crc32'), 4), ('seq', rs.named(iv, 'unicode'))], ('id', i, None))]
        return [(st, [('num', num('version'), 1), ('seq', rs.named(iv, 'data'))], ('id', i, None))]
    if n.startswith('Zip64'):
        res = [(st, [])]
        for nm, w in (('uncompressed_size', 8), ('compressed_size', 8), ('relative_header_offset', 8), ('disk_start_number', 4)):
            f = rs.named(iv, nm)
            nxt = []
            for s1, parts in res:
                for s2, val in rs.opt(s1, f):
                    nxt.append((s2, parts + ([('num', val, w)] if val is not None else [])))
            res = nxt
        return [(s1, parts, ('id', num('header_id'), None)) for s1, parts in res]
    return []


def emit_one(R, rs, st, v, n, vn, parts, idt, fns, where):
    e, s = rs.e, rs.s
    st = st.copy()
    total = ZERO
    for p in parts:
        if p[0] == 'num':
            total = add(total, C(p[2]))
        else:
            _, q = s.M.seqof(st, p[1])
            if q is None:
                R.ob('C28', 'emitted-layout', None, where['bytes'], '%s content not understood' % n)
                return
            total = add(total, e.seq_len(q))
    lab = n if vn is None else '%s::%s' % (n, vn)
    if any(p[0] == 'num' and p[1] is None for p in parts) or idt[1] is None:
        R.ob('C28', 'emitted-layout', None, where['bytes'], lab)
        return
    # a field that can be stored at all: declared size = content length, at most 65535
    st = st.assume(le(total, C(65535)))
    if st is not None and idt[2] is not None:
        st = st.assume(eq(idt[2], total))
    if st is None:
        return
    withdisk = n.startswith('Zip64') and len(parts) and parts[-1][2:] == (4,)
    cell = ('scn', 'xfield')
    st.mem[cell] = v
    lab += ' with ' + '+'.join('%d bytes' % p[2] for p in parts if p[0] == 'num') if parts and n.startswith('Zip64') else ''
    for o in s.call(e.I[fns['bytes']], [Ref(cell)], st):
        R.count('outcomes')
        if o[0] != 'ret':
            p = o[2]
            ok = None if o[1].lossy or not rs.cond_clean(p.get('cond'), o[1], p.get('ops')) else False
            R.ob('C28', 'emission-total', ok, '%s %s' % (p['fn'], p['sp']), '%s: %s (condition %s)' % (lab, p['kind'], str(p.get('cond'))[:120]))
            continue
        st1, b = o[1], o[2]
        _, q = s.M.seqof(st1, b)
        if q is None or q.k != 'seq':
            R.ob('C28', 'emitted-layout', None, where['bytes'], '%s emits %s' % (lab, str(b)[:100]))
            continue
        w = Walk(e, st1, [(q, where['bytes'])])
        try:
            got = w.num(2)
            R.ob('C28', 'emitted-id', same(st1, got, idt[1]), where['bytes'], '%s is emitted with id %s' % (lab, show(got)))
            got = w.num(2)
            R.ob('C28', 'emitted-size', field_is(st1, got, total, 16), where['bytes'], '%s is emitted with size %s, its payload has %s bytes%s' % (
                lab, show(got), show(total), disk8(withdisk, st1, got, total)))
            for p in parts:
                if p[0] == 'num':
                    got = w.num(p[2])
                    R.ob('C28', 'emitted-payload', same(st1, got, p[1]), where['bytes'], '%s: payload has %s for %s' % (lab, show(got)[:80], show(p[1])[:80]))
                else:
                    _, want = s.M.seqof(st1, p[1])
                    got = w.var(e.seq_len(want))
                    R.ob('C28', 'emitted-payload', seq_same(e, st1, got, want), where['bytes'], '%s: payload ends with %s, expected %s' % (lab, str(got)[:80], str(want)[:80]))
            left = w.end() or all(st1.facts.range(e.plen(i[0])) == (0, 0) for i in ([w.rest] if w.rest else []) + w.items[w.i + bool(w.rest):])
            R.ob('C28', 'emitted-payload', left or (None if st1.lossy else False), where['bytes'], '%s: bytes beyond the payload are emitted' % lab)
        except Short as x:
            R.ob('C28', 'emitted-layout', None if st1.lossy or not clean(q) or not x.clean else False, where['bytes'], '%s emits %s: %s' % (lab, str(q)[:120], x.msg))
        if 'count' in fns:
            for o2 in s.call(e.I[fns['count']], [Ref(cell)], st):
                if o2[0] != 'ret':
                    continue
                got = o2[2]
                R.ob('C28', 'counted-size', same(o2[1], got, add(total, C(4))) if isinstance(got, E) else None, where['count'],
                     '%s is counted as %s bytes and emitted as %s%s' % (lab, show(got) if isinstance(got, E) else got, show(add(total, C(4))), disk8(withdisk, o2[1], got, add(total, C(4)))))


def disk8(withdisk, st, got, total):
    return ' (8 bytes counted for the 4-byte disk number)' if withdisk and isinstance(got, E) and same(st, got, add(total, C(4))) is True else ''


def run_lists(R, s, e, ty, fns):
    """whole-list functions: concatenation and sum over the elements, in order"""
    names = {}
    for kind in fns:
        def ct(callee, args, st, ctx, kind=kind):
            v = e.rd(st, args[0]) if args[0].k == 'ref' else args[0]
            while not isinstance(v, E) and v.k == 'ref':
                v = e.rd(st, v)
            if v.k != 'sym':
                return None
            nm = 'ASB:' + v.a[0]
            e.atom_ty[nm] = e.U8
            L = length(nm)
            return [('ret', st, e.seq([('s', nm, ZERO, L)]) if kind == 'bytes' else L)]
        e.contracts[fns[kind]] = ct
    for i in e.I:
        if not (i['local'] and i['blocks'] and i.get('root')):
            continue
        kind = s.M.list_fn(i['id'])
        if kind is None or i['id'] in fns.values():
            continue
        where = '%s %s' % (nname(i), i.get('span') or '')
        for k in range(4):
            st = State()
            els = [Sym('x%d' % j, ty) for j in range(k)]
            v = Seq([('e', x) for x in els])
            arg = v
            t = e.T(i['locals'][1])
            d = 0
            while t['k'] == 'ref':
                t = e.T(t['ty'])
                d += 1
            for j in range(d):
                arg = s.cell(st, 'l%d' % j, arg)
            # total within what a record can hold
            tot = ZERO
            for x in els:
                tot = add(tot, length('ASB:' + x.a[0]))
                e.atom_ty['ASB:' + x.a[0]] = e.U8
            st.facts = st.facts.assume(le(tot, C(1 << 40)))
            for o in s.call(i, [arg], st):
                R.count('outcomes')
                if o[0] != 'ret':
                    p = o[2]
                    ok = None if o[1].lossy else False
                    R.ob('C28', 'emission-total', ok, '%s %s' % (p['fn'], p['sp']), 'list of %d: %s' % (k, p['kind']))
                    continue
                if kind == 'count':
                    R.ob('C28', 'list-counted', same(o[1], o[2], tot) if isinstance(o[2], E) else None, where, 'a list of %d fields is counted as %s' % (k, str(o[2])[:100]))
                else:
                    _, q = s.M.seqof(o[1], o[2])
                    want = e.seq([('s', 'ASB:' + x.a[0], ZERO, length('ASB:' + x.a[0])) for x in els])
                    R.ob('C28', 'list-emitted', seq_same(e, o[1], q, want) if q is not None else None, where, 'a list of %d fields is emitted as %s' % (k, str(q)[:120]))
