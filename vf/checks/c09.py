"""Unicode strings."""

from .common import *

ID = 'C09'
QUICK = 2
RULE = (
    'Each form of unicode (fixed, 4 length types, NET, terminated, rest of the data) with 16 '
    'encodings and 2 custom codecs; texts of ASCII, accented, CJK, astral and control characters, '
    'with lengths around the limits in bytes of the form (not characters); texts without an '
    'encoding, and bytes which are no text; random schemas. Oracle: Python codecs and the '
    'reference of the byte string form. Distinct: schema signature and packed bytes.'
)
CODECS = ('utf8', 'ascii', 'latin-1', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-le',
          'cp1252', 'utf-8-sig', 'shift_jis', 'cp037', 'utf-7', 'iso2022_jp', 'gb18030', 'UTF8', 'CodecRot',
          'CodecHex')
FORMS = (
    [lambda e, t=t: Uni(DynChar(t), e) for t in SIZE_TYPES]
    + [lambda e, n=n: Uni(CharN(n), e) for n in (4, 8, 24, 300)]
    + [lambda e: Uni(NetChar(), e), lambda e: Uni(ConsumeChar(), e)]
    + [lambda e: Uni(TermChar(b'\0'), e), lambda e: Uni(TermChar(b'\n'), e)]
)
POOLS = ('abcXYZ 09~', 'é\xffß', '漢字かな', '😀\U0010ffff', '\x01\x7f\x80\u2028', 'a\0b', 'é', 'ア')


def texts(case, node):
    rng = case.rng
    limit = {CharN: getattr(node.base, 'n', 0), DynChar: 255, NetChar: 127}.get(type(node.base), 40)
    yield ''
    for _ in range(4):
        pool = rng.choice(POOLS) if rng.random() < 0.7 else ''.join(POOLS)
        yield ''.join(rng.choice(pool) for _ in range(rng.randint(1, 12)))
    # Around the limit, with characters of several widths
    for ch in rng.sample(('a', 'é', '漢', '😀'), 2):
        try:
            width = max(1, len(node.encode(ch)))
        except RefError:
            continue
        n = limit // width
        for m in (n - 1, n, n + 1):
            if 0 < m < 400:
                yield ch * m
                yield 'x' + ch * (m - 1)


def grid_case(case):
    form = FORMS[case.index % len(FORMS)]
    codec = CODECS[case.index // len(FORMS) % len(CODECS)]
    node = form(codec)
    rng = case.rng
    bo = BO_NAMES[case.index % len(BO_NAMES)]
    fields = [('lead', Basic('uint8')), ('s', node)]
    if not node.final:
        fields.append(('tail', Basic('uint16')))
    cd = simple_class('Uni', fields, bo)
    env = load(case, cd)
    b = battery(case, env)
    try:
        for s in texts(case, node):
            rec = Rec(cd, {k: (s if k == 's' else 65) for k in cd.attrs})
            try:
                data = cd.enc(rec)
            except RefError as e:
                case.stats.case((cd.sig(), 'refused', s), None)
                b.refused(rec, e)
                continue
            note(case, cd, rec, data)
            b.packing(rec)
            b.unpacking(cd, data)
            b.truncations(cd, data, 1)
            b.mutations(cd, data, 2)
    finally:
        env.unload()


def bytes_case(case):
    """Arbitrary bytes in place of text"""
    rng = case.rng
    codec = rng.choice(CODECS)
    node = rng.choice(FORMS)(codec)
    cd = simple_class('Raw', [('s', node), ] + ([] if node.final else [('z', Basic('uint8'))]),
                      rng.choice(BO_NAMES))
    raw = simple_class('Plain', [('s', node.base), ] + ([] if node.final else [('z', Basic('uint8'))]),
                       cd.bo_name)
    env = load(case, cd)
    b = battery(case, env)
    try:
        for _ in range(4):
            s = ValueGen(rng).bytes(rng.randint(0, 12), getattr(node.base, 'term', b''))
            if codec == 'CodecHex' and rng.random() < 0.7:
                s = rng.choice((b'', b'616', b'61', b'c3a9', b'zz', b'c3'))
            data = raw.enc(Rec(raw, {'s': s, 'z': 7}))
            case.stats.case((cd.sig(), data), None)
            b.unpacking(cd, data, trailing=b'')
    finally:
        env.unload()


TEXT = Profile(basic=15, charn=8, dynchar=8, uni=60, consume=0.3)
LONG = (128, 255, 256, 257, 500, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193,
        10000, 16383, 16384, 16385, 20000, 32767, 32768, 65535, 65536, 70000)


def long_case(case):
    """Long texts, with characters of several bytes at each position."""
    rng = case.rng
    n = LONG[case.index % len(LONG)]
    codec = CODECS[case.index // len(LONG) % len(CODECS)]
    base = rng.choice((
        lambda: DynChar(rng.choice(('uint16', 'uint32', 'uint64'))), lambda: CharN(n), NetChar, ConsumeChar,
        lambda: TermChar(rng.choice((b'\0', b'\n'))), lambda: DynChar('uint32')))()
    node = Uni(base, codec)
    fields = [('lead', Basic('uint8')), ('s', node)]
    if not node.final:
        fields.append(('tail', Basic('uint16')))
    cd = simple_class('LongText', fields, rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    try:
        pool = []
        for ch in 'abXé漢😀ア':
            try:
                if node.encode(ch) and not (isinstance(base, TermChar) and base.term in node.encode(ch * 3)):
                    pool.append(ch)
            except RefError:
                pass
        if not pool:
            return
        for style in range(2):
            wide = rng.choice(pool) if style else None
            # Encoded to n bytes, or a few less
            width = max(1, len(node.encode((wide or 'a') * 50)) // 50) if style else 2
            s = wide * (n // width) if style else ''.join(rng.choices(pool, k=n // 4))
            for lead in ('', 'a'):
                rec = Rec(cd, {k: (lead + s if k == 's' else 65) for k in cd.attrs})
                try:
                    data = cd.enc(rec)
                    cd.decode(data)
                except RefError as e:
                    o = env.obj(rec)
                    try:
                        cd.enc(rec)
                    except RefError:
                        b.refused(rec, e)
                    continue
                note(case, cd, rec, data)
                b.packing(rec)
                b.unpacking(cd, data)
                b.truncations(cd, data, 1)
    finally:
        env.unload()


KINDS = {
    'long': Kind(long_case, len(LONG) * len(CODECS) // 2, len(LONG) * len(CODECS) * 12),
    'grid': Kind(grid_case, len(FORMS) * len(CODECS) * 4, len(FORMS) * len(CODECS) * 100),
    'bytes': Kind(bytes_case, 1500, 50000),
    'random': random_kind(TEXT, 1500, 60000, values=2),
    'big': random_kind(TEXT.but(depth=2), 150, 5000, values=1, big=0.5),
}
