"""The unpacking routes."""

from ..battery import READABLE, UNPACK_ROUTES
from .common import *

ID = 'C03'
QUICK = 2
RULE = (
    'Random schemas and values (all kinds of hints), and every ordered pair of hint kinds. The '
    'packed bytes are unpacked by 6 routes (3 class methods, 3 on existing objects with other '
    'values or no attributes) from 6 kinds of buffers, at random offsets, and streams, with '
    'data before and after. Monitors: equal, well typed values on each route, input intact, the '
    'object no alias of the buffer. Distinct: schema signature and packed bytes.'
)


def one(case, cd, big=0.02, rounds=2):
    env = load(case, cd)
    b = battery(case, env)
    cls = env.cls(cd)
    try:
        for _ in range(rounds):
            drawn = draw(case, cd, big=big)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            want = b.unpacking(cd, data)
            if want is None:
                continue
            trailing = b'' if cd.final else b.guard_bytes(5)
            reused = b.spare(cd)
            for kind in READABLE:
                for route in ('unpack', 'unpack_from'):
                    for target in (None, reused):
                        x = b.read_with(cls, route, data, kind=kind, target=target,
                                        trailing=trailing)
                        got = b.model(x, cd, f'{route} of a {kind}')
                        case.stats.hit(f'buffer:{kind}')
                        if not same(got, want):
                            b.fail(f'{route} of a {kind} unpacked wrong values', got=got,
                                   want=want, data=data)
            # At a large offset
            pre = b.far(len(data))
            x = cls.create_unpack_from(bytes(pre) + data + trailing, pre)
            if not same(b.model(x, cd, 'create_unpack_from'), want):
                b.fail(f'create_unpack_from() at {pre} unpacked wrong values', want=want)
            x = b.read_with(cls, 'unpack_read', data, trailing=trailing, pre=bytes(pre))
            if not same(b.model(x, cd, 'create_unpack_read'), want):
                b.fail(f'create_unpack_read() at {pre} unpacked wrong values', want=want)
            used = cd.decode(data)[1]
            if b.pos != used:
                b.fail('position after create_unpack_read()', got=b.pos, want=used, at=pre)
            # Unpacking in place must not touch the objects unpacked before
            first = cls.create_unpack(data)
            shown = env.freeze(first)
            other = draw(case, cd)
            if other is not None:
                second = cls.create_unpack(data)
                try:
                    second.unpack(other[1])
                except Exception:
                    pass
                if env.freeze(first) != shown:
                    b.fail('unpacking into one object changed another', before=shown,
                           after=env.freeze(first))
    finally:
        env.unload()


def random_case(case):
    one(case, schema(case, Profile(inherit=0.2)))


def big_case(case):
    one(case, schema(case, Profile()), big=0.4, rounds=1)


PAIRS = [(a, b) for a in LEAFS for b in LEAFS]


def pair_case(case):
    a, b = PAIRS[case.index % len(PAIRS)]
    bo = BO_NAMES[(case.index + case.index // len(PAIRS)) % len(BO_NAMES)]
    one(case, simple_class('Pair', [('a', a()), ('b', b()), ('tail', Basic('uint32'))], bo),
        rounds=1)


KINDS = {
    'random': Kind(random_case, 2500, 100000),
    'big': Kind(big_case, 200, 6000),
    'pairs': Kind(pair_case, len(PAIRS), len(PAIRS) * 12),
}
