"""Byte strings."""

import struct

from .common import *

ID = 'C08'
QUICK = 2
RULE = (
    'Each form of char (fixed, 4 length types, NET, terminated by any of the 256 bytes, rest of '
    'the data) and pascal, alone and amid other members, with every length from 0 to 300 and '
    'lengths around 2**7, 2**8, 2**14, 2**15, 2**16 (longer where allowed), contents of any '
    'bytes; too long values; truncated, unterminated and mutated data; random schemas. Distinct: '
    'schema signature and packed bytes.'
)
FORMS = (
    [lambda t=t: DynChar(t) for t in SIZE_TYPES]
    + [NetChar, TermChar, lambda: TermChar(b'\n'), lambda: TermChar(b'\xff'), ConsumeChar]
)
LENGTHS = sorted(
    set(range(0, 301))
    | {n + d for n in (500, 512, 1000, 1024, 2000, 2048, 5000, 10000, 50000, 100000, 4096, 8192, 16384, 32768, 65536, 131072) for d in (-1, 0, 1)}
)


def content(case, n, avoid=b''):
    return ValueGen(case.rng).bytes(n, avoid)


def check_lengths(case, node, bo, lengths, lead=True):
    fields = [('s', node)]
    if lead:
        fields.insert(0, ('lead', Basic(case.rng.choice(('uint8', 'uint32')))))
    if not node.final:
        fields.append(('tail', Basic('uint16')))
    cd = simple_class('Str', fields, bo)
    env = load(case, cd)
    b = battery(case, env)
    try:
        for n in lengths:
            avoid = node.term if isinstance(node, TermChar) else b''
            rec = Rec(cd, {k: (content(case, n, avoid) if k == 's' else 0x41) for k in cd.attrs})
            try:
                data = cd.enc(rec)
            except RefError as e:
                case.stats.case((cd.sig(), 'refused', n), None)
                o = env.obj(rec)
                for route, fn in (
                    ('pack', o.pack), ('pack_into', lambda: o.pack_into(bytearray(1 << 20))),
                    ('pack_write', lambda: o.pack_write(io.BytesIO())),
                ):
                    reject(case, fn, f'{route}(): a string of {n} bytes was packed', why=str(e))
                continue
            note(case, cd, rec, data)
            o, _ = b.packing(rec)
            b.unpacking(cd, data)
            if n < 400:
                b.truncations(cd, data, 2)
                b.too_small(o, data, 1)
                b.mutations(cd, data, 1)
    finally:
        env.unload()


def length_case(case):
    """A slice of the lengths for one of the forms"""
    forms = len(FORMS)
    node = FORMS[case.index % forms]()
    step = case.index // forms
    lengths = LENGTHS[step % 40 :: 40]
    if case.tier == 'quick':
        lengths = [n for n in lengths if n < 9000 or case.rng.random() < 0.5]
    bo = BO_NAMES[step % len(BO_NAMES)]
    check_lengths(case, node, bo, lengths, lead=step % 3 > 0)


def fixed_case(case):
    n = case.index % 70
    cls = CharN if case.index % 2 else Pascal
    node = cls(max(n, 1) if cls is Pascal else n)
    check_lengths(case, node, BO_NAMES[case.index % len(BO_NAMES)],
                  [n for n in {0, 1, n // 2, n - 2, n - 1, n} if n >= 0])


def wide_fixed(case):
    n = (200, 255, 256, 257, 300, 1000, 65536)[case.index % 7]
    node = (CharN if case.index // 7 % 2 else Pascal)(n)
    check_lengths(case, node, case.rng.choice(BO_NAMES), [0, 1, min(n, 255) - 1, min(n, 255)])


def terminator_case(case):
    """Each byte as the terminator; values containing all others."""
    term = bytes((case.index % 256,))
    node = TermChar(term)
    cd = simple_class('Term', [('a', Basic('uint8')), ('s', node), ('t', TermChar(term)),
                               ('z', Basic('uint8'))], case.rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    try:
        every = bytes(set(range(256)) - set(term)) * case.rng.choice((1, 2, 3))
        for s in (every, every + term, b'', term, content(case, 5, term)):
            rec = Rec(cd, {'a': term[0], 's': s, 't': content(case, 3, term), 'z': term[0]})
            data = cd.enc(rec)
            note(case, cd, rec, data)
            b.packing(rec)
            b.unpacking(cd, data)
            # Unterminated
            b.unpacking(cd, data[: data.rindex(term, 0, len(data) - 1)], trailing=b'')
    finally:
        env.unload()


def header_case(case):
    """Length prefixes for more than there is"""
    rng = case.rng
    node = rng.choice((DynChar('uint8'), DynChar('uint16'), DynChar('uint32'), DynChar('uint64'),
                       NetChar()))
    bo = rng.choice(BO_NAMES)
    cd = simple_class('Lie', [('s', node)], bo)
    env = load(case, cd)
    b = battery(case, env)
    try:
        s = content(case, rng.choice((0, 1, 5, 127, 128, 300)))
        for claim in {len(s), len(s) + 1, len(s) + 255, len(s) - 1, 0, 0x7F, 0x80, 0x7FFF}:
            if claim < 0:
                continue
            if isinstance(node, DynChar):
                try:
                    head = struct.pack(BYTE_ORDERS[bo] + SIZE_TYPES[node.size], claim)
                except struct.error:
                    continue
            elif claim < 0x80:
                head = bytes((claim,))
            else:
                head = struct.pack('@H', 0x80 | claim & 0x7F | (claim >> 7) << 8)
            data = head + s
            case.stats.case((cd.sig(), data), None)
            try:
                _, used = cd.decode(data)
            except RefError:
                used = len(data)
            b.unpacking(cd, data[:used], trailing=data[used:])
    finally:
        env.unload()


STRINGS = Profile(basic=15, charn=15, pascal=8, dynchar=25, net=15, term=25, consume=0.3)
KINDS = {
    'lengths': Kind(length_case, len(FORMS) * 40, len(FORMS) * 240),
    'fixed': Kind(fixed_case, 140, 840),
    'wide_fixed': Kind(wide_fixed, 14, 140),
    'terminators': Kind(terminator_case, 256, 1536),
    'headers': Kind(header_case, 600, 20000),
    'random': random_kind(STRINGS, 1500, 60000, values=2),
    'big': random_kind(STRINGS.but(depth=2), 150, 6000, values=1, big=0.5, truncate=1, mutate=1),
}
