"""Arrays."""

import struct

from .common import *

ID = 'C07'
RULE = (
    'Every header form (fixed, 4 count types, each with 4 or no data size types) with every kind '
    'of item, in varying byte orders; lengths around 0, 255/256 and 65535/65536, and where work might be done in portions (64 ... 20000); wrong lengths '
    'for fixed headers, counts and data sizes which do not fit their field, headers with a wrong '
    'count or data size, truncated items; random nested arrays. Distinct: schema signature and '
    'packed bytes.'
)
SIZES = tuple(SIZE_TYPES)
HEADERS = [(c, s) for c in (0, 1, 3) + SIZES for s in (None,) + SIZES]
ITEMS = LEAFS + [
    lambda: Basic('uint8', wrap=1),
    lambda: Tup((Basic('int64'),)),
    lambda: Arr('uint8', None, Arr(2, None, Basic('bool8'))),
    lambda: Arr('uint8', 'uint8', Nest(simple_class(fresh('An'), [('t', DynChar('uint8'))]))),
    lambda: Nest(simple_class(fresh('Ae'), [])),
    lambda: Uni(NetChar(), 'latin-1'),
    lambda: Pascal(3),
]
GRID = list(itertools.product(range(len(HEADERS)), range(len(ITEMS))))


def grid_case(case):
    h, i = GRID[case.index % len(GRID)]
    count, size = HEADERS[h]
    item = ITEMS[i]()
    bo = BO_NAMES[(case.index // 7 + case.index // len(GRID)) % len(BO_NAMES)]
    cd = simple_class('Grid', [
        ('lead', Basic('uint8')), ('arr', Arr(count, size, item)), ('tail', Basic('uint32')),
    ], bo)
    env = load(case, cd)
    b = battery(case, env)
    rng = case.rng
    try:
        lengths = [count] if isinstance(count, int) else [0, 1, 2, rng.randint(3, 9)]
        for n in lengths:
            items = [ValueGen(rng, depth=3).value(item, None) for _ in range(n)]
            rec = Rec(cd, {'lead': 7, 'arr': items, 'tail': 0xDEADBEEF})
            try:
                data = cd.enc(rec)
            except RefError as e:
                b.refused(rec, e)
                continue
            note(case, cd, rec, data)
            o, data, want = b.roundtrip(rec)
            b.truncations(cd, data, 2)
            # A wrong count or data size
            for _ in range(3):
                bad = bytearray(data)
                width = 0
                for t in (count, size):
                    if isinstance(t, str):
                        width += struct.calcsize('=' + SIZE_TYPES[t])
                if width:
                    at = 1 + rng.randrange(width)
                    bad[at] = rng.choice((bad[at] ^ 1, (bad[at] + 1) & 255, (bad[at] - 1) & 255,
                                          0, 255))
                    b.unpacking(cd, bytes(bad), trailing=b'')
                    case.stats.hit('header_mutations')
        if isinstance(count, int):
            for n in {max(0, count - 1), count + 1, 0, 7} - {count}:
                items = [ValueGen(rng, depth=3).value(item, None) for _ in range(n)]
                rec = Rec(cd, {'lead': 7, 'arr': items, 'tail': 1})
                try:
                    for x in items:
                        item.enc(x, BYTE_ORDERS[bo], None)
                except RefError:
                    continue
                b.refused(rec, f'{n} items instead of {count}')
                o = env.obj(rec)
                for fn in (o.pack, lambda: o.pack_into(bytearray(99999)),
                           lambda: o.pack_write(io.BytesIO())):
                    err = reject(case, fn, 'wrong number of items accepted', n=n, count=count)
                    if not isinstance(err, ValueError):
                        b.fail('a wrong number of items should raise ValueError', got=err)
    finally:
        env.unload()


def limit_case(case):
    """Counts and data sizes around the limits of their fields."""
    rng = case.rng
    small = case.tier == 'quick'
    plans = [
        ('uint8', None, 'uint8', (254, 255, 256, 257, 300)),
        ('uint8', 'uint8', 'uint16', (126, 127, 128, 129)),
        ('uint16', 'uint8', 'uint8', (254, 255, 256, 511)),
        ('uint16', None, 'int8', (255, 256, 257, 65535, 65536, 65537)),
        ('uint32', 'uint16', 'uint32', (16383, 16384, 16385)),
        ('uint64', 'uint32', 'float32', (255, 256, 1000, 65536)),
        ('uint8', 'uint64', 'dyn', (254, 255, 256)),
        ('uint16', 'uint8', 'dyn', (50, 51, 52, 85, 86)),
        ('uint32', 'uint16', 'dyn', (13107, 13108)),
        ('uint16', 'uint16', 'nest', (255, 256, 257, 9362, 9363)),
        ('uint8', 'uint8', 'nest', (36, 37, 255, 256)),
        ('uint16', None, 'char', (255, 256, 257, 70000)),
        ('uint8', 'uint32', 'tuple', (255, 256)),
        (256, 'uint8', 'uint8', (256,)),
        (255, 'uint8', 'uint8', (255,)),
        (300, None, 'uint16', (299, 300, 301)),
        (70000, 'uint16', 'bool8', (70000,)),
    ]
    count, size, kind, lengths = plans[case.index % len(plans)]
    item = {
        'dyn': lambda: DynChar('uint8'),
        'char': lambda: CharN(2),
        'tuple': lambda: Tup((Basic('uint8'), TermChar())),
        'nest': lambda: Nest(simple_class(fresh('Ln'), [('p', DynChar('uint16')), ('q', Basic('uint8'))])),
    }.get(kind, lambda: Basic(kind))()
    bo = rng.choice(('LE', 'BE', 'DEFAULT', 'NETWORK'))
    cd = simple_class('Limit', [('arr', Arr(count, size, item)), ('tail', Basic('uint8'))], bo)
    env = load(case, cd)
    b = battery(case, env)
    value = {
        'dyn': lambda: b'abcd', 'char': lambda: b'xy', 'tuple': lambda: (3, b'q'),
        'nest': lambda: Rec(item.cd, {'p': b'wxyz', 'q': 9}),
        'bool8': lambda: True, 'float32': lambda: 0.5,
    }.get(kind, lambda: rng.randrange(100))
    try:
        for n in lengths:
            if n > 20000 and small and case.index >= len(plans):
                continue
            rec = Rec(cd, {'arr': [value() for _ in range(n)], 'tail': 77})
            try:
                data = cd.enc(rec)
            except RefError as e:
                case.stats.case((cd.sig(), 'refused', n), None)
                o = env.obj(rec)
                for route, fn in (
                    ('pack', o.pack), ('pack_into', lambda: o.pack_into(bytearray(1 << 20))),
                    ('pack_write', lambda: o.pack_write(io.BytesIO())),
                ):
                    reject(case, fn, f'{route}(): {n} items fit the header?', why=str(e))
                continue
            note(case, cd, rec, data)
            b.packing(rec)
            b.unpacking(cd, data)
    finally:
        env.unload()


THRESHOLDS = (63, 64, 65, 100, 128, 200, 499, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047,
              2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 20000)


def threshold_case(case):
    """Many items: whatever is done in portions has to add up."""
    rng = case.rng
    n = THRESHOLDS[case.index % len(THRESHOLDS)]
    kind = case.index // len(THRESHOLDS) % 2
    if kind:
        item = rng.choice((
            lambda: DynChar('uint8'), lambda: Tup((Basic('uint8'), Basic('int16'))), NetChar,
            lambda: Nest(simple_class(fresh('Th'), [('q', Basic('uint8')), ('p', CharN(2))])),
            lambda: Arr(2, None, Basic('uint8')), lambda: Uni(DynChar('uint16')),
        ))()
    else:
        item = Basic(rng.choice(('uint8', 'int16', 'uint32', 'float64', 'bool8')))
    count = n if rng.random() < 0.3 else rng.choice(('uint16', 'uint32', 'uint64'))
    cd = simple_class('Many', [('arr', Arr(count, rng.choice((None, 'uint32')), item)),
                               ('tail', Basic('uint8'))], rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    try:
        pool = []
        while len(pool) < 7:
            try:
                v = ValueGen(rng, depth=2).value(item, None)
                # NOTE: unpack() copies the rest of the data for each item
                if len(item.enc(v, BYTE_ORDERS[cd.bo_name], None)) <= 15:
                    pool.append(v)
            except (Skip, RefError):
                pass
        if not kind and item.name != 'bool8' and not item.name.startswith('float'):
            pool = [i % (251 if item.name == 'uint8' else 32768) for i in range(n)]
        rec = Rec(cd, {'arr': [pool[i % len(pool)] for i in range(n)], 'tail': 77})
        data = cd.enc(rec)
        note(case, cd, rec, data)
        b.packing(rec)
        b.unpacking(cd, data)
        b.truncations(cd, data, 2)
    finally:
        env.unload()


def lying_header(case):
    """Well formed items after a header with another count or data size."""
    rng = case.rng
    count = rng.choice(SIZES)
    size = rng.choice(SIZES)
    item = rng.choice(ITEMS)()
    bo = rng.choice(BO_NAMES)
    cd = simple_class('Lying', [('arr', Arr(count, size, item))], bo)
    env = load(case, cd)
    b = battery(case, env)
    try:
        items = [ValueGen(rng, depth=3).value(item, None) for _ in range(rng.randint(0, 4))]
        code = BYTE_ORDERS[bo]
        try:
            body = b''.join(item.enc(x, code, None) for x in items)
        except RefError:
            return
        fmt = code + SIZE_TYPES[count] + SIZE_TYPES[size]
        extra = b.guard_bytes(rng.choice((0, 1, 8)))
        for n in {len(items), len(items) + 1, max(0, len(items) - 1), 0}:
            for m in {len(body), len(body) + 1, max(0, len(body) - 1), 0, len(body) * 2,
                      len(body) + len(extra)}:
                try:
                    data = struct.pack(fmt, n, m) + body + extra
                except struct.error:
                    continue
                case.stats.case((cd.sig(), data), {'count': n, 'data size': m, 'items': len(items)})
                try:
                    want, used = cd.decode(data)
                except RefError:
                    b.unpacking(cd, data, trailing=b'')
                    for route in ('unpack', 'unpack_from', 'unpack_read'):
                        if n == len(items) and m != len(body):
                            err = reject(
                                case, lambda: b.read_with(env.cls(cd), route, data),
                                'wrong data size accepted', data=data)
                            if not isinstance(err, ValueError):
                                b.fail('a wrong data size should raise ValueError', got=err,
                                       data=data)
                else:
                    b.unpacking(cd, data[:used], trailing=data[used:])
    finally:
        env.unload()


ARRAYS = Profile(array=60, basic=20, depth=4)
KINDS = {
    'grid': Kind(grid_case, len(GRID) * 2, len(GRID) * 40),
    'limits': Kind(limit_case, 34, 340),
    'thresholds': Kind(threshold_case, len(THRESHOLDS) * 2, len(THRESHOLDS) * 20),
    'lying': Kind(lying_header, 1200, 40000),
    'random': random_kind(ARRAYS, 1500, 60000, values=2),
    'big': random_kind(ARRAYS.but(depth=2), 100, 4000, values=1, big=0.5),
}
