"""Data from elsewhere."""

from .common import *

ID = 'C24'
QUICK = 2
RULE = (
    'Each kind of hint, alone and amid others, in every byte order, on all strings of up to one '
    'byte (thorough: two), and on random and structured data (small numbers, repetitions, NULs, high '
    'bytes, UTF fragments, pieces of packed objects spliced together); random classes on the same. '
    'Oracle: the reference codec decides whether, to what and from how many bytes each route '
    'unpacks; the objects are packed again by each route, and what these bytes unpack to has to be '
    'the same object, unless text does not fit its fixed size (any longer). Distinct: schema '
    'signature and data.'
)

WIDE = ('utf-16', 'utf-32', 'utf-8-sig', 'CodecHex', 'CodecRot')


def lossy(cd, seen=None):
    """Whether text could take more bytes than it came from, or its padding mean something."""
    return any(
        isinstance(s, Uni) and s.encoding in WIDE
        for c in cd.classes().values() for _, nd in c.fields for s in build.walk_local(nd)
    )


PIECES = (
    b'', b'\0', b'\0\0', b'\1', b'\2', b'\3', b'\x7f', b'\x80', b'\x81', b'\xff', b'\0\1', b'\1\0', b'\0\2',
    b'\2\0', b'\0\0\0\1', b'\1\0\0\0', b'\0\0\0\2', b'\2\0\0\0', bytes(7) + b'\1', b'\1' + bytes(7), b'abc',
    b'\n', b'|', b'A', b']', b'\\', 'é'.encode(), '漢'.encode(), '😀'.encode(), b'\xe6\xbc', b'\xff\xfe', b'\xfe\xff',
    b'\xff\xfea\0', b'\xd8\0', b'\0\xd8', b'a\0b\0', b'\xef\xbb\xbf', b'61', b'6', b'\xff\xff', b'\x80\1', b'\xff\1',
    b'\x7f\xc0\0\0', b'\0\0\xc0\x7f', b'\x7f\x80\0\1', b'\1\0\x80\x7f', b'\xff\xff\xff\xff', b' ', b'\x81\0',
)


def blob(rng, packed=()):
    r = rng.random()
    if r < 0.2:
        return bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 4, 6, 8, 12, 20, 40, 80))))
    if r < 0.4:
        return bytes(rng.choice((0, 0, 1, 1, 2, 3, 4)) for _ in range(rng.choice((2, 4, 8, 16, 40, 100))))
    if r < 0.6 or not packed:
        return b''.join(rng.choice(PIECES) for _ in range(rng.choice((1, 2, 3, 5, 8, 16))))
    out = b''
    for _ in range(rng.choice((1, 2, 2, 3))):
        data = rng.choice(packed)
        i = rng.randint(0, len(data))
        out += data[:i] if rng.random() < 0.5 else data[i:]
        if rng.random() < 0.4:
            out += rng.choice(PIECES)
    return out


def routes_of(cls, data):
    return (
        ('create_unpack', lambda: (cls.create_unpack(data), None)),
        ('create_unpack_from', lambda: (cls.create_unpack_from(b'\x01' + data, 1), None)),
        ('create_unpack_read', lambda: read(cls, data)),
        ('unpack', lambda: (into(cls, 'unpack', data), None)),
        ('unpack_from', lambda: (into(cls, 'unpack_from', data), None)),
        ('unpack_read', lambda: (into(cls, 'unpack_read', io.BytesIO(data)), None)),
    )


def read(cls, data):
    stream = io.BytesIO(data)
    return cls.create_unpack_read(stream), stream.tell()


def into(cls, name, data):
    x = cls.__new__(cls)
    getattr(x, name)(data)
    return x


def judge(case, env, cd, data, cheap=False):
    """Every route gives what the reference says; and packing that is stable."""
    cls = env.cls(cd)
    try:
        want, used = cd.decode(data)
    except RefError as e:
        if 'gives up' in str(e):
            return
        want = None
        why = e
    x = None
    for name, fn in routes_of(cls, data):
        ok, out = attempt(fn)
        if want is None:
            if ok:
                raise Violation(f'{name}({short(data)}) gave {short(out[0])}, though {why}')
            continue
        if not ok:
            raise Violation(f'{name}({short(data)}) raised {out!r}, expected {short(want)}')
        x, pos = out
        size = cls.serializer.size
        if size != used or (pos is not None and pos != used):
            raise Violation(f'{name}({short(data)}) used {size} bytes (stream at {pos}), expected {used}')
        try:
            got = env.rec(x, cd)
        except Mismatch as e:
            raise Violation(f'{name}({short(data)}): {e}') from None
        if not same(got, want):
            raise Violation(f'{name}({short(data)}) gave {short(got)}, expected {short(want)}')
    case.stats.hit('rejected by all routes' if want is None else 'unpacked by all routes')
    if want is None:
        return
    # Packing what was unpacked
    try:
        ref = cd.enc(want)
    except RefError as e:
        reject(case, x.pack, f'packed {short(want)}, though {e}')
        return
    buffer = bytearray(len(ref))
    stream = io.BytesIO()
    for name, fn in (('pack', x.pack), ('pack_into', lambda: x.pack_into(buffer) or bytes(buffer)),
                     ('pack_write', lambda: x.pack_write(stream) or stream.getvalue())):
        ok, out = attempt(fn)
        if not ok or out != ref:
            raise Violation(f'{name}() of {short(want)}, unpacked from {short(data)}, gave {short(out)}, '
                            f'expected {short(ref)}')
    if cheap and ref == data[:used]:
        case.stats.hit('canonical data')
        return
    ok, y = attempt(lambda: cls.create_unpack(ref))
    if ok:
        again = env.rec(y, cd)
        if same(again, want):
            case.stats.hit('stable')
            return
    elif isinstance(y, Violation):
        raise y
    if lossy(cd):
        case.stats.hit('lossy text')
        return
    raise Violation(f'{short(data)} unpacked to {short(want)}, which packs to {short(ref)}, which unpacks to '
                    f'{short(y)}')


def guarded(case, env, cd, data, cheap=False):
    try:
        judge(case, env, cd, data, cheap)
    except Violation as e:
        if type(e).__name__ == 'TooDeep' and len(data) > 60 and any(
            isinstance(s, SelfRef) for c in cd.classes().values() for _, nd in c.fields
            for s in build.walk_local(nd)
        ):
            case.stats.hit('recursion_limit_reached')
            return
        raise
    case.stats.case((cd.sig(), data), None)


def inner():
    return simple_class(fresh('In'), [('p', NetChar()), ('q', Basic('int16'))])


MORE = [
    lambda: DynChar('uint16'), lambda: DynChar('uint64'), lambda: TermChar(b']'), lambda: ConsumeChar(),
    lambda: Uni(ConsumeChar(), 'utf-16'), lambda: Uni(NetChar()), lambda: Uni(DynChar('uint8'), 'ascii'),
    lambda: Uni(DynChar('uint8'), 'latin-1'), lambda: Uni(DynChar('uint8'), 'cp1252'),
    lambda: Uni(DynChar('uint8'), 'utf-32-le'), lambda: Uni(DynChar('uint8'), 'utf-8-sig'),
    lambda: Uni(DynChar('uint8'), 'CodecHex'), lambda: Uni(DynChar('uint8'), 'CodecRot'),
    lambda: Uni(CharN(2), 'utf-16-le'), lambda: Uni(CharN(1)), lambda: Uni(TermChar(b'\n'), 'latin-1'),
    lambda: Pascal(1), lambda: Pascal(2), lambda: Arr('uint8', None, Pascal(3)),
    lambda: Arr('uint8', None, Basic('uint8')), lambda: Arr('uint8', 'uint8', Basic('uint8')),
    lambda: Arr('uint8', 'uint8', Basic('uint16')), lambda: Arr('uint16', 'uint8', NetChar()),
    lambda: Arr('uint8', 'uint8', TermChar()), lambda: Arr(2, 'uint8', Uni(TermChar())),
    lambda: Arr('uint8', None, Arr('uint8', None, Basic('bool8'))), lambda: Arr(1, 'uint16', DynChar('uint8')),
    lambda: Arr('uint8', None, SerAs(Basic('uint8'), 0)), lambda: Arr('uint64', None, Basic('float16')),
    lambda: Tup((Basic('bool8'), NetChar(), Basic('uint8'))), lambda: Tup((TermChar(), TermChar(b'\n'))),
    lambda: Nest(inner()), lambda: Arr('uint8', 'uint8', Nest(inner())), lambda: Custom('XorByte', 'lead'),
    lambda: Cond(Basic('uint16'), Pred('o.lead & 1', ()), None),
    lambda: Cond(DynChar('uint8'), Pred('o.lead > 3', ()), b''),
    lambda: UnionLB(Pred('o.lead', ()), {0: Basic('uint8'), 1: DynChar('uint8'), 2: TermChar()}, None),
    lambda: UnionLB(Pred('o.lead & 7', ()), {0: Basic('float64'), 1: NetChar()}, Basic('int16')),
    lambda: ahead(Basic('uint8'), 1, 2), lambda: ahead(CharN(1), b'a', b'\0'),
    lambda: ahead(Basic('bool8'), True, False), lambda: ahead(TermChar(), b'', b'A'),
]
EACH = LEAFS + MORE


def ahead(hint, one, two):
    name = fresh('Ra')
    u = UnionLA(hint, Pred('o.m.tag', ()), {
        one: Nest(simple_class(name + 'x', [('tag', hint), ('v', Basic('uint8'))])),
        two: Nest(simple_class(name + 'y', [('tag', hint), ('w', DynChar('uint8'))])),
    }, Nest(simple_class(name + 'z', [('tag', hint)])) if one == 1 else None)
    u.spare_tags = []
    return u


def needs_lead(node):
    text = ' '.join(str(getattr(s, 'arg', '')) + getattr(getattr(s, 'pred', None), 'expr', '')
                    for s in build.walk_local(node))
    return 'lead' in text


def make_each(i, rng):
    node = EACH[i % len(EACH)]()
    shape = i // len(EACH) % 4
    fields = [('m', node)]
    if shape == 1 and not node.final and not isinstance(node, UnionLA) and not needs_lead(node):
        fields = [('m', Arr(rng.choice(('uint8', 2)), rng.choice((None, 'uint8')), node))]
    elif shape == 2 and not isinstance(node, UnionLA) and not needs_lead(node):
        fields = [('m', Tup((Basic('uint8'), node)))]
    elif shape == 3 and not node.final:
        fields.append(('tail', Basic('uint16')))
    if needs_lead(node) or shape == 3:
        fields.insert(0, ('lead', Basic('uint8')))
    return simple_class('Each', fields, BO_NAMES[(i // len(EACH) + i) % len(BO_NAMES)])


def short_case(case):
    """All of the shortest strings."""
    cd = make_each(case.index, case.rng)
    env = load(case, cd)
    try:
        guarded(case, env, cd, b'', True)
        for a in range(256):
            guarded(case, env, cd, bytes((a,)), True)
        if case.tier == 'thorough' and case.index < len(EACH) * 4:
            for a in range(256):
                for b in range(0, 256):
                    if a < 10 or b < 10 or a in (0x7F, 0x80, 0xFF, 0xC3, 0xD8) or not (a + b) % 7:
                        guarded(case, env, cd, bytes((a, b)), True)
    finally:
        env.unload()


def each_case(case):
    rng = case.rng
    cd = make_each(case.index, rng)
    env = load(case, cd)
    try:
        packed = [d[1] for _ in range(4) if (d := draw(case, cd)) is not None]
        for _ in range(40):
            data = blob(rng, packed)
            if len(data) < 3000:
                guarded(case, env, cd, data)
    finally:
        env.unload()


def random_case(case):
    rng = case.rng
    cd = schema(case, Profile(max_fields=5, depth=3, raw=0.05, inherit=0.1, styles=0.1,
                              size_types=('uint8', 'uint8', 'uint8', 'uint16', 'uint32')))
    env = load(case, cd)
    try:
        packed = [d[1] for _ in range(4) if (d := draw(case, cd)) is not None and len(d[1]) < 2000]
        if packed:
            case.stats.case((cd.sig(), 0), {'schema': short(cd.sig(), 150), 'data': short(blob(rng, packed))})
        for _ in range(12):
            data = blob(rng, packed)
            if len(data) < 3000:
                guarded(case, env, cd, data)
        b = battery(case, env)
        for _ in range(6):
            if packed:
                guarded(case, env, cd, b.mutate(rng.choice(packed)))
    finally:
        env.unload()


KINDS = {
    'short': Kind(short_case, len(EACH) * 2, len(EACH) * 8),
    'each': Kind(each_case, len(EACH) * 16, len(EACH) * 160),
    'random': Kind(random_case, 5000, 100000),
}
