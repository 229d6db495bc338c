"""The packing routes."""

from ..battery import PACK_ROUTES, WRITABLE
from .common import *

ID = 'C02'
QUICK = 2
RULE = (
    'Random schemas and values (all kinds of hints), and every ordered pair of hint kinds. Each '
    'object is packed by pack(), by pack_into() at random offsets into 5 kinds of buffers '
    'between guard bytes (exact fit included), and by pack_write() at random positions of '
    'streams holding data; nested objects of subclasses and of other byte orders. Monitors: bytes equal to the reference codec on each route, guard '
    'bytes and buffer length intact, object unmodified, too small buffers refused. Distinct: '
    'schema signature and packed bytes.'
)


def one(case, cd, big=0.02, rounds=2):
    env = load(case, cd)
    b = battery(case, env)
    try:
        for _ in range(rounds):
            drawn = draw(case, cd, big=big)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            o, _ = b.packing(rec)
            before = env.freeze(o)
            for kind in WRITABLE:
                for pre, post in ((b'', b''), (None, b''), (None, None)):
                    out = b.pack_bytes(o, 'pack_into', data, kind=kind, pre=pre, post=post)
                    case.stats.hit(f'buffer:{kind}')
                    if out != data and not (kind == 'mmap' and not data):
                        b.fail(f'pack_into() a {kind} packed the wrong bytes', got=out,
                               want=data, value=rec)
            # Far into a large buffer
            pre = b.far(len(data))
            for route in ('pack_into', 'pack_write'):
                out = b.pack_bytes(o, route, data, pre=bytes(pre), post=b'xyz')
                if out != data:
                    b.fail(f'{route}() at {pre} packed the wrong bytes', got=out, want=data)
            b.too_small(o, data, 3)
            # The routes in random order, again, on the very same object
            for route in case.rng.sample(PACK_ROUTES, 3) * 2:
                out = b.pack_bytes(o, route, data)
                if out != data:
                    b.fail(f'{route}() of a packed object packed the wrong bytes', got=out,
                           want=data, value=rec)
            if env.freeze(o) != before:
                b.fail('packing changed the object', before=before, after=env.freeze(o))
            # Appending to one stream
            stream = io.BytesIO()
            for _ in range(3):
                o.pack_write(stream)
            if stream.getvalue() != data * 3:
                b.fail('pack_write() three times to a stream', got=stream.getvalue(),
                       want=data * 3)
    finally:
        env.unload()


def random_case(case):
    one(case, schema(case, Profile(inherit=0.2)))


def big_case(case):
    one(case, schema(case, Profile()), big=0.4, rounds=1)


PAIRS = [(a, b) for a in LEAFS for b in LEAFS]


def pair_case(case):
    a, b = PAIRS[case.index % len(PAIRS)]
    bo = BO_NAMES[(case.index + case.index // len(PAIRS)) % len(BO_NAMES)]
    one(case, simple_class('Pair', [('a', a()), ('b', b()), ('tail', Basic('uint32'))], bo),
        rounds=1)


class Mixed(ValueGen):
    """Members with objects of subclasses, or of another byte order."""

    family = ()

    def value(self, node, o):
        rng = self.rng
        if isinstance(node, Nest) and node.cd is self.family[0]:
            rec = self.rec(rng.choice(self.family))
        else:
            rec = super().value(node, o)
        if isinstance(rec, Rec) and rng.random() < 0.25:
            object.__setattr__(rec, 'moved', rng.choice(BO_NAMES))
        return rec


def mixed_case(case):
    """Nested objects which are not quite what the hint says."""
    rng = case.rng
    g = SchemaGen(rng, Profile(max_fields=3, depth=1, consume=0.0, styles=0.0, self=0, raw=0.0))
    base = g.class_def(prefix='Base')
    family = [base] + [g.derive(base) for _ in range(rng.choice((1, 2)))]
    if any(cd.final for cd in family):
        return
    fields = [('k', Basic('uint8'))]
    for i in range(rng.choice((1, 2, 3))):
        node = Nest(base)
        shape = rng.randrange(6)
        if shape == 1:
            node = Arr(rng.choice(('uint8', 2)), rng.choice((None, 'uint32')), node)
        elif shape == 2:
            node = Tup((Basic('uint16'), node, DynChar('uint8')))
        elif shape == 3:
            node = Cond(node, Pred('o.k & 1', ()), None)
        elif shape == 4:
            node = UnionLB(Pred('o.k & 1', ()), {0: node, 1: rng.choice(LEAFS)()}, None)
        fields.append((f'm{i}', node))
        fields.append((f'x{i}', rng.choice(LEAFS)()))
    cd = simple_class('Outer', fields, rng.choice(BO_NAMES))
    env = load(case, [cd] + family)
    b = battery(case, env)
    try:
        for _ in range(3):
            vg = Mixed(rng)
            vg.family = family
            try:
                rec = vg.rec(cd)
                data = cd.enc(rec)
            except (Skip, RefError):
                continue
            note(case, cd, rec, data)
            o, _ = b.packing(rec)
            for kind in WRITABLE:
                out = b.pack_bytes(o, 'pack_into', data, kind=kind)
                if out != data and not (kind == 'mmap' and not data):
                    b.fail(f'pack_into() a {kind} packed the wrong bytes', got=out, want=data, value=rec)
            b.too_small(o, data, 2)
    finally:
        env.unload()


KINDS = {
    'mixed': Kind(mixed_case, 500, 20000),
    'random': Kind(random_case, 3000, 120000),
    'big': Kind(big_case, 200, 6000),
    'pairs': Kind(pair_case, len(PAIRS), len(PAIRS) * 12),
}
