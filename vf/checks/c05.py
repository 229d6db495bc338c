"""Basic types against the struct module."""

import struct

from .common import *

ID = 'C05'
QUICK = 2
RULE = (
    'Classes of basic types only: every ordered pair and (sampled) triple of the 16 basic kinds '
    'with varying lengths, in each byte order, and random ones with up to 14 (some with up to 1100) members, paddings '
    'in any place and the same kind repeated. Oracle: one struct format per class, applied by the '
    'stdlib struct module, on boundary values, for all routes; truncated and mutated data. '
    'Distinct: schema signature and packed bytes.'
)
KINDS_OF = [lambda r, n=n: Basic(n) for n in gen.BASICS] + [
    lambda r: CharN(r.choice((0, 1, 2, 3, 7, 12))),
    lambda r: Pascal(r.choice((1, 2, 3, 7, 12))),
    lambda r: Pad(r.choice((0, 1, 2, 3, 5, 12))),
    lambda r: CharN(1),
]


def check(case, fields, bo, annotated=False, values=3):
    cd = simple_class('Flat', fields, bo)
    env = load(case, cd)
    b = battery(case, env)
    fmt = BYTE_ORDERS[bo] + ''.join(node.fmt for _, node in fields)
    case.stats.hit('formats')
    try:
        for _ in range(values):
            rec = ValueGen(case.rng).rec(cd)
            args = [rec.vals[n] for n in cd.attrs]
            try:
                data = struct.pack(fmt, *args)
            except (struct.error, OverflowError):
                continue
            case.stats.case((fmt, data), {'format': fmt, 'values': short(args, 150)})
            o, ref = b.packing(rec)
            if ref != data:
                raise AssertionError('reference')
            b.too_small(o, data, 1)
            want = b.unpacking(cd, data)
            raw = [want.vals[n] for n in cd.attrs]
            if not all(map(same, raw, struct.unpack(fmt, data))):
                raise AssertionError('reference')
            b.unpacking(cd, b.guard_bytes(len(data)))  # any bytes of the size
            b.truncations(cd, data, 2)
        cls = env.cls(cd)
        if cls.serializer.size != struct.calcsize(fmt):
            b.fail('serializer.size', got=cls.serializer.size, want=struct.calcsize(fmt))
    finally:
        env.unload()


def fields_of(case, makers):
    fields = []
    for i, make in enumerate(makers):
        node = make(case.rng)
        fields.append(('_' if not node.nvals else f'm{i}', node))
    return fields


PAIRS = list(itertools.product(KINDS_OF, KINDS_OF, BO_NAMES))
TRIPLES = list(itertools.product(KINDS_OF, KINDS_OF, KINDS_OF))


def pair_case(case):
    a, c, bo = PAIRS[case.index % len(PAIRS)]
    check(case, fields_of(case, (a, c)), bo)


def triple_case(case):
    i = case.index * 7919 % len(TRIPLES)
    check(case, fields_of(case, TRIPLES[i]), case.rng.choice(BO_NAMES), values=2)


def random_case(case):
    rng = case.rng
    n = rng.randint(1, 14)
    pool = rng.sample(KINDS_OF, rng.choice((1, 2, 3, 8, len(KINDS_OF))))
    check(case, fields_of(case, [rng.choice(pool) for _ in range(n)]), rng.choice(BO_NAMES))


def wide_case(case):
    """Many members of few kinds, so that counts of several digits get folded."""
    rng = case.rng
    pool = rng.sample(KINDS_OF, rng.choice((1, 1, 2)))
    makers = []
    while len(makers) < rng.randint(9, 40):
        makers += [rng.choice(pool)] * rng.randint(1, 12)
    check(case, fields_of(case, makers), rng.choice(BO_NAMES), values=1)


def large_case(case):
    """Hundreds of members, all sorts of folding between them."""
    rng = case.rng
    n = rng.choice((100, 257, 300, 520, 1100))
    pool = rng.sample(KINDS_OF, rng.choice((2, 5, len(KINDS_OF))))
    check(case, fields_of(case, [rng.choice(pool) for _ in range(n)]), rng.choice(BO_NAMES), values=1)


KINDS = {
    'pairs': Kind(pair_case, len(PAIRS), len(PAIRS) * 4),
    'triples': Kind(triple_case, 2000, len(TRIPLES) * 6),
    'random': Kind(random_case, 2500, 80000),
    'wide': Kind(wide_case, 300, 8000),
    'large': Kind(large_case, 16, 500),
    'mixed': random_kind(
        Profile(basic=60, charn=20, pascal=10, pad=15, max_fields=9), 1000, 40000
    ),
}
