"""Which rules decide which property."""

KINDS = ('whole', 'wholepre', 'stream', 'streampre')
A_WRITE = ['the sink accepts every byte it is given or fails (partial acceptance is the subject of C14)',
           'the archive written so far and each entry stay below 2^60 bytes (no 64-bit position overflows)',
           'codecs of async-compression and crc32fast are trusted: their output is an uninterpreted function of codec, level and input',
           'caller-supplied extra fields are a list of unknown kinds, or one field of a kind the library knows']


def single(modes, fams, thorough=('full',)):
    def f(tier):
        out = []
        for k in KINDS:
            for m in modes:
                for fam in [x for f in fams for x in (['textsA', 'textsB', 'textsC', 'textsD'] if f == 'texts' else [f])]:
                    out.append(('rules_write', 'run_single', ((k,), (m,), (fam,))))
        return out
    return f


def plus(*fs):
    def f(tier):
        out = []
        for g in fs:
            out += g(tier) if callable(g) else g
        return out
    return f


EXPLAIN_W = ('Abstract interpretation of the type-checked MIR: the public writer API is analysed for an arbitrary abstract entry (any method, sizes, CRC, date, attributes, '
             'extra fields, name, comment), arbitrary data and an arbitrary amount of previously emitted output, in every zip64 mode; every abstract '
             'path is followed (states are merged at loop heads, and elsewhere only when the merge is exact). The byte sequence each successful path hands to the sink, as terms over '
             'the inputs, is parsed field by field against the ZIP specification and each field is an obligation; failing paths are obligations too. ')

PROPS = {}
POLL = [('rules_poll', 'run_poll', ())]


def prop(pid, jobs, explain, assumptions=(), technique='', note=''):
    PROPS[pid] = dict(jobs=jobs, explain=explain, assumptions=list(assumptions), technique=technique, note=note)




def wr(fn, *argss):
    return [('rules_write', fn, a) for a in argss]


def deeper(base, *more):
    """quick jobs, and those the thorough run adds"""
    def f(tier):
        return list(base) + ([j for m in more for j in m] if tier == 'thorough' else [])
    return f


# histories: pairs of entries of all kinds, an entry after a failed one, one more entry after any number of others, no entry at all
PAIRS = wr('run_pair', *[(a, b, 'def') for a in KINDS for b in KINDS])
PAIRS_NO = wr('run_pair', *[(a, b, 'no') for a in KINDS for b in KINDS])
PAIRS_T = wr('run_pair', *[(a, b, m, True) for a in KINDS for b in KINDS for m in ('def', 'no', 'force')])
AFTER = wr('run_after_failure', ('whole', 'stream', 'def'), ('stream', 'wholepre', 'def'), ('wholepre', 'whole', 'no'), ('streampre', 'stream', 'no'))
AFTER_T = wr('run_after_failure', *[(a, b, m) for a in KINDS for b in KINDS for m in ('def', 'no', 'force')])
MANY_NO = wr('run_many', ('whole', 'no'), ('stream', 'no'), ('wholepre', 'no'), ('streampre', 'no'))
MANY = wr('run_many', ('whole', 'def'), ('stream', 'def'), ('whole', 'forced'))
MANY_T = wr('run_many', *[(k, m, True) for k in KINDS for m in ('def', 'no', 'forced')])
EMPTY = wr('run_empty', *[(m, c) for m in ('def', 'no', 'force') for c in (False, True)])

ABS = 'abstract interpretation of MIR (value-numbering dataflow over all paths) with obligations on emitted bytes'
prop('C04', plus(single(('def', 'no', 'force'), ('methods', 'texts')), deeper(PAIRS + EMPTY + MANY[:1], PAIRS_T, MANY_T)), EXPLAIN_W + 'Rule: byte layout of every record.', A_WRITE, ABS)
prop('C07', plus(single(('def', 'no'), ('methods', 'texts')), single(('def',), ('methods:Zip64ExtendedInformation',)), deeper(PAIRS, PAIRS_T)), EXPLAIN_W + 'Rule: local and central record agree with each other and with the caller\'s entry.', A_WRITE, ABS)
prop('C08', plus(single(('def', 'no'), ('methods', 'texts')), deeper(EMPTY + PAIRS, PAIRS_T)), EXPLAIN_W + 'Rule: every length field equals the number of bytes emitted.', A_WRITE, ABS)
prop('C09', plus(single(('def', 'no', 'force'), ('methods',)), single(('def',), ('texts',)), POLL, deeper(PAIRS + EMPTY + AFTER + MANY, PAIRS_T, AFTER_T, MANY_T)), EXPLAIN_W + 'Rule: recorded offsets and sizes are the sink positions.', A_WRITE, ABS)
prop('C10', plus(single(('def', 'no', 'force'), ('methods',)), single(('def',), ('texts',)), single(('def', 'force'), ('methods:Zip64ExtendedInformation',)), deeper(PAIRS + MANY + MANY_NO[:2], PAIRS_T, MANY_T)), EXPLAIN_W + 'Rule: exact value, or sentinel plus zip64 value, or error.', A_WRITE, ABS)
prop('C11', plus(single(('no',), ('methods', 'texts')), single(('no',), ('methods:Zip64ExtendedInformation',)), single(('fno',), ('simple',)), deeper(PAIRS_NO + EMPTY + MANY_NO, MANY_T)), EXPLAIN_W + 'Rule: no zip64 structure when disabled.', A_WRITE, ABS)
prop('C12', plus(single(('def', 'no'), ('methods',)), single(('def',), ('texts',)), POLL, deeper(PAIRS, PAIRS_T, AFTER_T)), EXPLAIN_W + 'Rule: CRC and sizes are those of the data, the data is emitted completely.', A_WRITE, ABS)
prop('C13', plus(single(('def', 'no'), ('methods',)), single(('def',), ('texts',)), deeper(PAIRS + EMPTY + AFTER + MANY + MANY_NO[:2], PAIRS_T, AFTER_T, MANY_T)), EXPLAIN_W + 'Rule: listed exactly once iff the write succeeded.', A_WRITE, ABS)

# ------------------------------------------------------------------ reading side
A_READ = ['the source returns at most what it was asked for, reports end of data only at its end, and keeps its bytes unchanged while it is read',
          'codecs of async-compression and crc32fast are trusted: their output is an uninterpreted function of codec and input',
          'archives are smaller than 2^62 bytes']
EXPLAIN_R = ('Abstract interpretation of the type-checked MIR: the public reading operations are analysed for a source of unknown length, position and '
             'bytes (abstract values throughout, no concrete input); every abstract path is followed, loops are summarised by invariants that are checked inductive. Extra-field '
             'parsing, record parsing and the end-record search are replaced, where they are called, by the contract that their own analysis establishes. ')
ABR = 'abstract interpretation of MIR (value-numbering dataflow over all paths) with obligations on parsed values, positions and returned errors'


def rd(fn, *argss):
    return [('rules_read', fn, a) for a in argss]


STREAM = rd('run_stream', (None, 'utf8'), (None, 'text'))
STREAM_X = rd('run_stream', (0, 'utf8'), (1, 'utf8'), (2, 'utf8'))
STREAM_T = rd('run_stream', (0, 'text'), (1, 'text'), (2, 'text'))
RECORD = rd('run_record', (None, 'utf8'), (None, 'text'))
RECORD_X = rd('run_record', (0, 'utf8'), (1, 'utf8'), (2, 'utf8'))
RECORD_T = rd('run_record', (0, 'text'), (1, 'text'), (2, 'text'))
FINISH = rd('run_stream_finish', ())
OPEN_S = rd('run_open', ('seek',))
OPEN_F = rd('run_open', ('fs',))
OPEN_M = rd('run_open', ('mem', ('plain', 'sat', 'short', 'unsat')))
ENTRY = rd('run_entry', ('seek',), ('mem',), ('fs',))
PARSE = [('rules_extra', 'run_parse', (None,)), ('rules_extra', 'run_parse', (1,))]
PARSE1 = PARSE[1:]
PARSE_T = [('rules_extra', 'run_parse', (2,))]
EMIT = [('rules_extra', 'run_emit', ())]
LOCATE = rd('run_locator', ())
CHECKED = rd('run_checked', ())
EVERY = STREAM + FINISH + OPEN_S + OPEN_F + OPEN_M + RECORD + ENTRY + LOCATE + CHECKED


THOR = rd('run_open', ('mem', ('all',)))
prop('C01', deeper(EVERY + PARSE1, THOR, PARSE_T, STREAM_X, RECORD_X, STREAM_T, RECORD_T), EXPLAIN_R + 'Rule: no path ends in a panic, an arithmetic overflow or an out-of-range access.', A_READ, ABR)
prop('C02', deeper(STREAM + FINISH + ENTRY + LOCATE + CHECKED + OPEN_S + OPEN_F + OPEN_M + RECORD + PARSE1, THOR, STREAM_X, RECORD_X), EXPLAIN_R + 'Rule: every reservation is at most 64 KiB or a constant factor of the bytes held.', A_READ, ABR)
prop('C03', deeper(STREAM + OPEN_S + OPEN_F + OPEN_M + RECORD + ENTRY, THOR), EXPLAIN_R + 'Rule: on every path that returns a parsed record the four bytes before it are established to be its signature.', A_READ, ABR)
prop('C05', deeper(STREAM_X + RECORD_X + OPEN_S + OPEN_F + OPEN_M + PARSE, THOR, PARSE_T), EXPLAIN_R + 'Rule: sizes, offset and end-record values are the zip64 values exactly where the narrow field is saturated.', A_READ, ABR)
prop('C06', deeper(STREAM + RECORD + rd('run_record', (1, 'text')) + OPEN_S + OPEN_F + OPEN_M, THOR, STREAM_X, RECORD_X, STREAM_T, RECORD_T), EXPLAIN_R + 'Rule: every reported attribute is the record\'s field.', A_READ, ABR)
prop('C14', lambda tier: POLL, 'Abstract interpretation of the type-checked MIR of every AsyncRead/AsyncBufRead/AsyncWrite implementation of the crate, on an unknown adapter state, caller buffer and wrapped object (pending, error or any count). Rule: exactly one call of the same operation with the caller\'s buffer, its result returned, counters and checksums advanced by exactly the bytes moved.', ['the wrapped object reports at most as many bytes as it was given'], ABS.replace('emitted bytes', 'adapter calls, results and state'))
prop('C15', plus(deeper(STREAM + RECORD + ENTRY), single(('def',), ('methods',))), EXPLAIN_R + EXPLAIN_W + 'Rule: numbers and codecs of compression methods agree on both sides with the specification.', A_READ + A_WRITE, ABR)
prop('C16', deeper(ENTRY + STREAM), EXPLAIN_R + 'Rule: position, bound, decoder and metadata of every entry reader are those of the requested entry.', A_READ, ABR)
prop('C17', deeper(CHECKED + POLL), EXPLAIN_R + 'Rule: success implies equality of the CRC-32 of the delivered bytes with the recorded one.', A_READ, ABR)
prop('C18', deeper(STREAM + OPEN_S + OPEN_F + OPEN_M + RECORD + ENTRY, THOR), EXPLAIN_R + 'Rule: nothing is returned for an archive or entry that uses an unsupported feature.', A_READ, ABR)
TEXT = [('rules_values', 'run_string', ())]
prop('C19', deeper(TEXT + [('rules_types', 'run_witness', ('C19',))] + STREAM + RECORD + RECORD_T + STREAM_T + OPEN_S + OPEN_M), EXPLAIN_R + 'Rule: text marked as UTF-8 was validated.', A_READ, ABR)
prop('C20', plus(single(('def',), ('texts', 'textsB:InfoZipUnicodePath', 'textsB:InfoZipUnicodeComment')), deeper(STREAM_T + RECORD_T + rd('run_stream', (None, 'utf8')) + rd('run_record', (0, 'utf8')))), EXPLAIN_W + EXPLAIN_R + 'Rule: UTF-8 flag, stored bytes and Unicode fields.', A_WRITE + A_READ, ABS)
EXPLAIN_V = ('Abstract interpretation of the type-checked MIR of the value functions on unknown arguments (every state of the receiver, every argument value); '
             'results are compared bit by bit as terms over the inputs. ')
ABV = 'abstract interpretation of MIR (value-numbering over all paths, bit-slice terms) with obligations on returned values'
prop('C21', lambda tier: [('rules_types', 'run_witness', ('C21',))], 'Each misuse is a program over the public API that the compiler must reject; its twin, differing in one line, must compile, so that the rejection is due to the misuse. '
     'Obligations: one per program.', ['the type checker of rustc is sound for these programs'], 'compile-fail witnesses with compiling twins, type-checked against the crate\'s current metadata')
prop('C30', lambda tier: [('rules_types', 'run_blocking', ())], 'Call-graph query over the type-checked MIR: every function mentioned in any body of the crate (called or passed as a value, including those of its generic instances) is compared with the blocking operations of '
     'std, tokio and futures-lite; every poll of a future that returns pending must leave the function.', ['the asynchronous I/O, codec and checksum crates do not block by themselves', 'the source or sink the caller supplies does not block'], 'effect analysis over the MIR call graph')
prop('C22', lambda tier: [('rules_values', 'run_date', ())], EXPLAIN_V + 'Rule: each getter is its MS-DOS bit range, each setter makes its own getter return the argument and leaves the others, calendar conversions hand over the same components.', ['calendar accessors of chrono return the component of that name'], ABV)
prop('C23', lambda tier: [('rules_values', 'run_builder', ())], EXPLAIN_V + 'Rule: after each setter its accessor returns the argument and every other attribute is the previous one; conversions are identities.', [], ABV)
prop('C24', plus(single(('def', 'no'), ('methods',)), single(('def',), ('texts',)), deeper(EVERY + POLL + EMPTY, THOR)), EXPLAIN_W + EXPLAIN_R + 'Rule: errors of the sink and of the source are reported.', A_WRITE + A_READ, ABS)
prop('C25', deeper(STREAM + FINISH), EXPLAIN_R + 'Rule: positions before and after each step of the stream reader.', A_READ, ABR)
prop('C26', deeper(ENTRY[1:] + [('rules_types', 'run_shared', ()), ('rules_types', 'run_witness', ('C26',))]), EXPLAIN_R + 'Rule: every entry reader owns its cursor or file handle; no interior-mutable, global or handle-holding type is reachable from the shared readers (type-graph traversal); sharing programs compile and exclusive ones do not (witnesses with twins).', A_READ, ABR)
prop('C27', deeper(STREAM + OPEN_S + OPEN_F + OPEN_M + RECORD + ENTRY, THOR), EXPLAIN_R + 'Rule: nothing is returned from fewer bytes than the lengths state; an early end is an error.', A_READ, ABR)
prop('C28', deeper(PARSE + EMIT, PARSE_T), 'Abstract interpretation of the type-checked MIR of the extra-field parser on an area of unknown bytes and length and of the serialisers on an unknown field of every kind. '
     'Parsing: every returned list is compared with the list the specification gives for the same bytes - inductively (one arbitrary step from an arbitrary cursor, the exit condition, every refusal) and, for definite '
     'violations, on all paths with up to one (thorough: two) fields. Emission: id, declared size and payload bytes of each kind, byte counts, and the concatenation over lists of up to three fields. ',
     ['a field\'s declared size is that of its content and at most 65535 (the caller\'s obligation for hand-made fields)'], ABR)
prop('C29', deeper(LOCATE), EXPLAIN_R + 'Rule: inductive coverage argument over the search windows: overlap, lower bound, complete search of each window, position after a matching signature.', A_READ, ABR)

# ------------------------------------------------------------------ whole-library properties
prop('C34', lambda tier: [('rules_types', 'run_ambient', ())], 'Query over the type-checked MIR of every body of the crate, including generic instances and promoted constants: each function called or passed as a value is compared with the ambient inputs and effects of std, chrono, tokio and the random-number crates; statics are '
     'inventoried for state that can change; casts are scanned for addresses used as numbers.', ['codecs, checksums and I/O adapters of other crates depend only on their inputs'], 'effect analysis over the MIR call graph and statics')
prop('C35', lambda tier: [('rules_types', 'run_witness', ('C35',))], 'Each guarantee is a generic program over the public API, for every source and sink type, which the compiler must accept. Obligations: one per program.', ['the type checker of rustc is sound for these programs'],
     'must-compile witnesses (auto-trait obligations discharged by the type checker for all type parameters)')


def featured(tier):
    from rules_features import CONFIGS, PAIRS
    jobs = [('rules_features', 'run_builds', tuple(CONFIGS))]
    if tier == 'thorough':
        jobs.append(('rules_features', 'run_builds', tuple(PAIRS)))
    names = list(CONFIGS) + (list(PAIRS) if tier == 'thorough' else [])
    single_ = ['none', 'deflate', 'deflate64', 'bzip2', 'lzma', 'zstd', 'xz']
    for c in single_ + [n for n in names if n not in single_] if tier == 'thorough' else single_:
        js = rd('run_stream', (None, 'utf8')) + rd('run_record', (None, 'utf8')) + rd('run_entry', ('seek',), ('mem',)) + wr('run_single', (('whole',), ('def',), ('methods',)), (('stream',), ('def',), ('methods',)))
        if c in ('none', 'tokio', 'chrono'):
            js += [('rules_values', 'run_date', ()), ('rules_values', 'run_builder', ())]
        if tier == 'thorough':
            js += wr('run_single', (('wholepre',), ('def',), ('methods',)), (('streampre',), ('no',), ('methods',))) + POLL + CHECKED + OPEN_S + FINISH
        jobs += [('rules_features', 'run', (c,) + j) for j in js]
    return jobs


def prepare_features(tier):
    import rules_features
    rules_features.prepare(tier)


prop('C36', featured, EXPLAIN_R + EXPLAIN_W + 'Every selection of features is type-checked, and the rules of the reading and writing properties are decided again on the MIR each selection of codecs compiles to, with the methods outside the selection required to be refused.', A_READ + A_WRITE, ABS)
PROPS['C36']['prepare'] = prepare_features
prop('C37', plus(deeper(EVERY + TEXT + STREAM_T + RECORD_T, THOR), single(('def',), ('methods', 'textsA')), lambda tier: [('rules_types', 'run_unsafe', ()), ('rules_types', 'run_witness', ('C37',))]),
     EXPLAIN_R + EXPLAIN_W + 'Rule: the precondition of every unsafe operation the library performs is established on every path that reaches it; the inventory of unsafe operations accounts for each; programs that would make a reference dangle or move a single-threaded value to another thread do not compile.', A_READ, ABR + '; inventory of unsafe operations; compile-fail witnesses')

VIA = [('rules_hold', 'run_via', a) for a in (
    ('rules_read', 'run_open', ('seek-tokio',), ()), ('rules_read', 'run_stream', (None, 'utf8'), (('ctor', 'with_tokio'),)),
    ('rules_write', 'run_empty', ('def', False, 'with_tokio'), ()), ('rules_write', 'run_empty', ('no', True, 'with_tokio'), ()), ('rules_write', 'run_empty', ('force', False, 'with_tokio'), ()),
    ('rules_write', 'run_single', (('whole',), ('def',), ('methods',)), (('ctor', 'with_tokio'),)), ('rules_write', 'run_single', (('stream',), ('def',), ('methods',)), (('ctor', 'with_tokio'),)))]
prop('C38', deeper(VIA + [('rules_hold', 'run_holders', ())], [('rules_hold', 'run_via', ('rules_write', 'run_single', ((k,), (m,), ('methods',)), (('ctor', 'with_tokio'),))) for k in KINDS for m in ('def', 'no', 'force')]),
     EXPLAIN_R + EXPLAIN_W + 'The constructors over tokio sources and sinks are held to the rules of the base constructors; every accessor, conversion and clone is compared, as an abstract value, with what was put in.', A_READ + A_WRITE, ABV)

prop('C39', plus(single(('def', 'no'), ('methods',)), [('rules_hold', 'run_helpers', ())], deeper([], [('rules_write', 'run_single', ((k,), ('force',), ('methods',))) for k in KINDS])),
     EXPLAIN_W + 'The public helpers are run on an arbitrary entry and arbitrary data; their result is compared with what the writer feeds, encodes and emits for the same entry.', A_WRITE, ABS)

NOT_APPLICABLE = {
    'C31': 'Quantifies over the behaviour of compression codecs on every byte sequence; the codecs are foreign crates and C libraries whose inverse property no static argument in reach can establish. The parts the library controls (right codec, whole output emitted, right bytes fed, right window decoded) are C12, C15 and C16.',
    'C32': 'A statement about other programs; deciding it needs running them. Conformance to the specification, which is what makes interoperation possible, is C04-C11 and C28.',
    'C33': 'Termination and memory bounds of decompressors and of user-supplied readers depend on runtime quantities no sound static argument here bounds; the allocation part the library controls is C02.',
}
