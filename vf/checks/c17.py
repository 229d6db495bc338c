"""Custom types by SerializeAs."""

from .. import userlib
from .common import *

ID = 'C17'
QUICK = 2
RULE = (
    'All sequences of up to three members out of plain numbers, paddings, strings and custom types '
    'made by their type or by one of several factories; custom types in each place (tuples, arrays '
    'with each header, conditions, unions, nested and recursive objects, subclasses); random '
    'classes; hand written types (enums, subclasses of int, factories of all sorts, which may '
    'raise). Monitors: every call of a type or factory, with its argument, compared in order with '
    'the objects in the data; none when packing. Distinct: schema signature and packed bytes.'
)
PIECES = (
    lambda: Basic('uint8'),
    lambda: Basic('int32'),
    lambda: Pad(1),
    lambda: CharN(2),
    lambda: DynChar('uint8'),
    lambda: SerAs(Basic('uint8'), 0),
    lambda: SerAs(Basic('uint8'), 1, 1),
    lambda: SerAs(Basic('uint8'), 0, 2),
    lambda: SerAs(Basic('int32'), 2),
    lambda: SerAs(CharN(2), 0),
    lambda: SerAs(CharN(2), 0, 3),
)


def watch(case, env, cd, rec, data):
    """Each route creates each custom object once."""
    rng = case.rng
    cls = env.cls(cd)
    o = env.obj(rec)
    log = userlib._Custom.log = []
    try:
        outs = [o.pack()]
        buffer = bytearray(len(data))
        o.pack_into(buffer)
        stream = io.BytesIO()
        o.pack_write(stream)
        outs += [bytes(buffer), stream.getvalue()]
        if log:
            raise Violation(f'packing called types or factories: {short(log)}')
        for out in outs:
            if out != data:
                raise Violation(f'packed {short(out)}, expected {short(data)}')
        SerAs.log = []
        try:
            cd.decode(data)
        finally:
            want, SerAs.log = SerAs.log, None
        extra = b'' if cd.final else b'\xcc' * rng.choice((0, 3))
        old = env.obj(rec)
        del log[:]
        routes = {
            'create_unpack': lambda: cls.create_unpack(data + extra),
            'create_unpack_from': lambda: cls.create_unpack_from(b'12' + data + extra, 2),
            'create_unpack_read': lambda: cls.create_unpack_read(io.BytesIO(data + extra)),
            'unpack': lambda: old.unpack(data + extra),
            'unpack_from': lambda: old.unpack_from(b'1' + data + extra, 1),
            'unpack_read': lambda: old.unpack_read(io.BytesIO(data + extra)),
        }
        for name, fn in routes.items():
            del log[:]
            fn()
            got = list(log)
            if len(got) != len(want) or not all(map(same, got, want)):
                raise Violation(
                    f'{name}: types and factories called\n    got  {short(got)}\n    want {short(want)}'
                    f'\n    data {short(data)}'
                )
            case.stats.hit('objects_created', len(got))
    finally:
        userlib._Custom.log = None


def run(case, cd, values=2, **kw):
    env = load(case, cd, **kw)
    b = battery(case, env)
    try:
        for _ in range(values):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            note(case, cd, *drawn)
            _, data, want = b.roundtrip(drawn[0])
            if want is not None:
                watch(case, env, cd, want, cd.enc(want))
                b.mutations(cd, data, 1)
    finally:
        env.unload()


def sequence_case(case):
    i = case.index
    n = len(PIECES)
    if i < n ** 3:
        nodes = [PIECES[i % n](), PIECES[i // n % n](), PIECES[i // n ** 2]()]
    else:
        nodes = [case.rng.choice(PIECES)() for _ in range(case.rng.randint(4, 12))]
    fields = [('_' if not nd.nvals else f'm{k}', nd) for k, nd in enumerate(nodes)]
    run(case, simple_class('Seq', fields, BO_NAMES[(i * 7 + i // 6) % len(BO_NAMES)]), values=1)


def large_case(case):
    """Hundreds of members, of which some are custom types."""
    rng = case.rng
    n = rng.choice((50, 127, 128, 255, 256, 257, 300))
    dense = rng.choice((0.05, 0.5, 1))
    nodes = [rng.choice(PIECES)() if rng.random() < dense else rng.choice(PIECES[:2])() for _ in range(n)]
    fields = [('_' if not nd.nvals else f'm{k}', nd) for k, nd in enumerate(nodes)]
    run(case, simple_class('Large', fields, rng.choice(BO_NAMES)), values=1)


def custom(rng):
    base = rng.choice((Basic('uint8'), Basic('int16'), Basic('uint32'), Basic('float32'),
                       Basic('bool8'), Basic('int64'), CharN(3)))
    return SerAs(base, rng.randrange(3), rng.choice((False, True, 1, 2, 3)))


def place_case(case):
    rng = case.rng
    c = lambda: custom(rng)
    filler = lambda: rng.choice(PIECES)()
    some = lambda: [rng.choice((c, c, filler))() for _ in range(rng.randint(1, 4))]
    tup = lambda: Tup([c()] + some())
    headers = [(n, s) for n in (0, 1, 3, 'uint8', 'uint16', 'uint64') for s in (None, 'uint8', 'uint32')]
    arr = lambda item: Arr(*rng.choice(headers), item)
    inner = lambda: Nest(simple_class(fresh('In'), [
        (f'i{k}' if nd.nvals else '_', nd) for k, nd in enumerate([c()] + some())
    ], rng.choice(BO_NAMES)))
    ctrl = Basic('uint8')
    ctrl.ctrl = True
    gate = lambda item: Cond(item, Pred(f'o.k & {rng.choice((1, 2, 4))}', (),
                                        rng.choice(list(build.Hooks.TRUTHY))), None)
    chooser = lambda a, b: UnionLB(Pred('o.k & 1', ()), {0: a, 1: b}, None)
    places = (
        c, tup, lambda: arr(c()), lambda: arr(tup()), lambda: arr(inner()), inner,
        lambda: gate(c()), lambda: gate(tup()), lambda: gate(arr(c())),
        lambda: chooser(c(), c()), lambda: chooser(arr(c()), tup()), lambda: chooser(inner(), c()),
        lambda: arr(gate(c())), lambda: arr(chooser(c(), c())), lambda: Tup((gate(c()), chooser(c(), c()))),
        lambda: arr(arr(c())), lambda: Tup((tup(), arr(tup()))),
        lambda: Cond(Tup((c(), SelfRef())), Pred('o.k > 4', ()), None),
        lambda: Arr('uint8', None, Tup((c(), SelfRef()))),
    )
    nodes = [places[case.index % len(places)]()] + [
        rng.choice(places)() if rng.random() < 0.5 else c() for _ in range(rng.randint(0, 2))
    ]
    rng.shuffle(nodes)
    fields = [('k', ctrl)] + [(f'm{i}', nd) for i, nd in enumerate(nodes)]
    bo = BO_NAMES[case.index // len(places) % len(BO_NAMES)]
    cd = simple_class('Places', fields, bo)
    if rng.random() < 0.3:
        cd = simple_class('SubPlaces', [('more', c()), ('plain', Basic('uint8'))], bo, base=cd)
    run(case, cd)


HAND = '''
import enum
import functools

LOG = []

class Color(enum.IntEnum):
    RED = 1
    GREEN = 2

class Flag(enum.IntFlag):
    A = 1
    B = 2

class Int(int):
    def __new__(cls, value):
        LOG.append(('Int', value))
        return super().__new__(cls, value)

class Celsius(float):
    pass

class Wrapped:
    def __init__(self, value, scale=1):
        LOG.append(('Wrapped', value))
        self.value = value
        self.scale = scale
    def __index__(self):
        return self.value
    def __float__(self):
        return float(self.value)
    @classmethod
    def make(cls, value):
        return cls(value, 2)
    @staticmethod
    def build(value):
        return Wrapped(value, 3)
    @classmethod
    def refuse(cls, value):
        if value > 100:
            raise LookupError(value)
        return cls(value, 4)

class Maker:
    def __init__(self, scale):
        self.scale = scale
    def __call__(self, value):
        return Wrapped(value, self.scale)
    def method(self, value):
        return Wrapped(value, self.scale + 1)

W32: TypeAlias = Annotated[Wrapped, SerializeAs(uint32)]
plain = SerializeAs(int16)
fancy = plain.with_factory(Wrapped.make)
fancier = fancy.with_factory(Wrapped.build)

class Types(Structured{kw}):
    color: Annotated[Color, SerializeAs(uint8)]
    flag: Annotated[Flag, SerializeAs(uint16)]
    num: Annotated[Int, SerializeAs(int32)]
    temp: Annotated[Celsius, SerializeAs(float64)]

class Factories(Structured{kw}):
    a: Annotated[Wrapped, plain]
    b: Annotated[Wrapped, fancy]
    c: Annotated[Wrapped, fancier]
    d: Annotated[Wrapped, plain, 'documented']
    e: Annotated[Wrapped, 'documented', fancy]
    f: Annotated[Wrapped, SerializeAs(int8).with_factory(lambda v, W=Wrapped: W(v, 5))]
    g: Annotated[Wrapped, SerializeAs(int8).with_factory(functools.partial(Wrapped, scale=6))]
    h: Annotated[Wrapped, SerializeAs(int8).with_factory(Maker(7))]
    i: Annotated[Wrapped, SerializeAs(int8).with_factory(Maker(7).method)]
    j: Annotated[Int, plain]
    k: Annotated[Any, SerializeAs(Annotated[int, uint8]).with_factory(str)]

class Aliased(Structured{kw}):
    a: W32
    b: W32
    c: array[Header[2], W32]
    d: tuple[W32, uint8, W32]
    e: array[Header[uint8, uint16], W32]

class Aliased2(Structured{kw}):
    x: uint8
    a: W32

class Refusing(Structured{kw}):
    x: uint8
    a: Annotated[Wrapped, SerializeAs(uint8).with_factory(Wrapped.refuse)]
    b: Annotated[Wrapped, SerializeAs(uint8)]
    c: array[Header[2], Annotated[Color, SerializeAs(uint8)]]
'''


def scales(v):
    return [(type(w).__name__, getattr(w, 'scale', None), int(w)) for w in v]


def hand_case(case):
    bo = BO_NAMES[case.index % len(BO_NAMES)]
    rng = case.rng
    future = case.index % 4 == 3
    m = define(case, HAND.replace('{kw}', f', byte_order=ByteOrder.{bo}'),
               'from __future__ import annotations\nfrom typing import TypeAlias\n' if future else
               'from typing import TypeAlias\n')
    order = BYTE_ORDERS[bo]
    sp = __import__('struct').pack

    def all_routes(cls, data):
        objs = [cls.create_unpack(data), cls.create_unpack_from(b'x' + data, 1),
                cls.create_unpack_read(io.BytesIO(data))]
        used = cls.__new__(cls)
        used.unpack(data)
        case.stats.hit('hand_unpacked', 4)
        return objs + [used]

    def check(what, got, want):
        if got != want:
            raise Violation(f'{what}: got {got!r}, expected {want!r}')

    W, LOG = m['Wrapped'], m['LOG']
    for _ in range(4):
        n, t = rng.randint(-2**31, 2**31 - 1), rng.uniform(-9, 9)
        o = m['Types'](m['Color'].GREEN, m['Flag'](3), m['Int'](n), m['Celsius'](t))
        data = sp(order + 'BHid', 2, 3, n, t)
        case.stats.case(('types', bo, data))
        check('Types.pack', o.pack(), data)
        for x in all_routes(m['Types'], data):
            check('types', [type(v) for v in (x.color, x.flag, x.num, x.temp)],
                  [m['Color'], m['Flag'], m['Int'], m['Celsius']])
            check('values', (x.color, x.flag, x.num, x.temp), (2, 3, n, t))
        vals = [rng.randint(-128, 127) for _ in range(11)]
        vals[10] = abs(vals[10]) % 256
        data = sp(order + '5h4bhB', *vals)
        case.stats.case(('factories', bo, data))
        o = m['Factories'](*[W(v) for v in vals])
        check('Factories.pack', o.pack(), data)
        for x in all_routes(m['Factories'], data):
            got = [getattr(x, k) for k in m['Factories'].attrs]
            check('factories', scales(got[:9]), [
                ('Wrapped', s, v) for s, v in zip((1, 2, 3, 1, 2, 5, 6, 7, 8), vals)])
            check('members', (type(got[9]), got[9], got[10]), (m['Int'], vals[9], str(vals[10])))
        nums = [rng.getrandbits(32) for _ in range(9)]
        o = m['Aliased'](W(nums[0]), W(nums[1]), [W(nums[2]), W(nums[3])],
                         (W(nums[4]), 7, W(nums[5])), [W(n) for n in nums[6:]])
        # An array takes its items, and a tuple its own, as formats of their own
        data = (sp(order + '2I', *nums[:2]) + sp(order + '2I', *nums[2:4])
                + sp(order + 'IBI', nums[4], 7, nums[5])
                + sp(order + 'BH', 3, 12) + sp(order + '3I', *nums[6:]))
        case.stats.case(('aliased', bo, data))
        check('Aliased.pack', o.pack(), data)
        for x in all_routes(m['Aliased'], data):
            check('aliased', [w.value for w in (x.a, x.b, *x.c, x.d[0], x.d[2], *x.e)], nums)
        del LOG[:]
        m['Aliased'].create_unpack(data)
        check('calls', LOG, [('Wrapped', n) for n in nums])
        data = sp(order + 'BI', 1, nums[0])
        x = m['Aliased2'].create_unpack(data)
        check('aliased2', (x.x, type(x.a), x.a.value, x.pack()), (1, W, nums[0], data))
        # Types and factories which raise
        good = bytes((1, 100, 5, 1, 2))
        for bad in (bytes((1, 101, 5, 1, 2)), bytes((1, 100, 5, 1, 3)), bytes((1, 200, 5, 0, 1)), good[:4]):
            for name in ('create_unpack', 'create_unpack_from', 'create_unpack_read'):
                arg = io.BytesIO(bad) if name == 'create_unpack_read' else bad
                e = reject(case, lambda: getattr(m['Refusing'], name)(arg),
                           f'{name} swallowed the exception of a factory or type', data=bad)
                if bad[1] > 100 and type(e) is not LookupError:
                    raise Violation(f'{name}: exception of the factory became {e!r}')
            for x in all_routes(m['Refusing'], good):
                check('after a failure', (x.x, int(x.a), x.a.scale, int(x.b), x.c),
                      (1, 100, 4, 5, [1, 2]))
                check('after a failure', x.pack(), good)
    # Hints which are not of a single basic value
    Structured, SA = m['Structured'], m['SerializeAs']

    class Small(Structured):
        a: m['uint8']

    for what, hint in {
        'array': m['array'][m['Header'][2], m['uint8']], 'tuple': tuple[m['uint8'], m['int8']],
        'one-tuple': tuple[m['uint8']],
        'Structured': Small, 'pad': m['pad'][2], 'char[uint8]': m['char'][m['uint8']],
        'unicode': m['unicode'][4], 'int': int, 'None': None, 'str': str, 'text': 'uint8',
        'number': 5, 'null_char': m['null_char'], 'char[NET]': m['char'][m['NET']],
    }.items():
        reject(case, lambda: SA(hint), f'SerializeAs accepted {what}')


KINDS = {
    'hand': Kind(hand_case, 12, 300),
    'sequences': Kind(sequence_case, len(PIECES) ** 3 + 150, len(PIECES) ** 3 + 6000),
    'large': Kind(large_case, 16, 600),
    'places': Kind(place_case, 2000, 40000),
    'random': random_kind(Profile(seras=40, tuple=12, array=14, inherit=0.2), 1200),
}
