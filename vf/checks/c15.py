"""Subclasses."""

from ..build import Env
from .common import *

ID = 'C15'
QUICK = 4
RULE = (
    'Chains of up to 4 subclasses (some of hundreds of members) with random members added, redefined (in place), removed and '
    'added again, named and unnamed paddings at each level, all byte orders with both modes; '
    'every class of a chain is packed and unpacked by each route, base classes also after their '
    'subclasses were defined. Every pair of byte orders and mode, defined and expected to be '
    'accepted or refused; multiple Structured bases refused, mixins accepted. Oracle: the effective '
    'list of members by the rules of the README, and the reference codec. Distinct: schema signature '
    'and packed bytes.'
)

OTHER = ('None', 'int', 'str', 'ClassVar[int]', 'ClassVar[uint8]', 'list', 'tuple[int, ...]', 'Any',
         'Optional[int]')


def check_class(env, cd):
    import structured

    cls = env.cls(cd)
    if cls.attrs != cd.attrs:
        raise Violation(f'{cd.name}.attrs is {cls.attrs}, expected {cd.attrs}')
    if cls.byte_order is not getattr(structured.ByteOrder, cd.bo_name):
        raise Violation(f'{cd.name}.byte_order is {cls.byte_order}, expected {cd.bo_name}')


def run_chain(case, chain):
    env = load(case, chain[-1])
    b = battery(case, env)
    order = list(chain)
    case.rng.shuffle(order)
    try:
        for cd in order:
            check_class(env, cd)
            drawn = draw(case, cd)
            if drawn is None:
                continue
            note(case, cd, *drawn)
            o, data, want = b.roundtrip(drawn[0])
            if case.rng.random() < 0.3:
                b.truncations(cd, data, 2)
    finally:
        env.unload()
    for cd in chain:
        check_class(env, cd)


PROFILE = Profile(max_fields=4, depth=2, styles=0.0, consume=0.05)


def chain_case(case):
    gen_ = SchemaGen(case.rng, PROFILE)
    cd = gen_.class_def()
    chain = [cd]
    for _ in range(case.rng.choice((1, 1, 2, 3))):
        cd = gen_.derive(cd)
        chain.append(cd)
    run_chain(case, chain)


def basic_chain(case):
    """Members without any dependencies, so all of them can be redefined."""
    rng = case.rng
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'g']
    known = []
    bo = rng.choice(BO_NAMES)
    base = None
    chain = []
    for level in range(rng.choice((2, 2, 3, 4))):
        body = []
        for n in list(known):
            r = rng.random()
            if r < 0.25:
                body.append((n, rng.choice(LEAFS)()))
            elif r < 0.4:
                body.append((n, Raw(rng.choice(OTHER))))
            elif r < 0.45:
                body.append((n, Pad(rng.choice((1, 2, 4)))))
        for _ in range(rng.choice((0, 1, 2, 3))):
            r = rng.random()
            if r < 0.2:
                body.append(('_', Pad(rng.choice((1, 2, 3, 4)))))
            elif r < 0.25:
                body.append(('_', Cond(Pad(2), Pred('True', ()), None)))
            else:
                n = rng.choice([n for n in names if n not in known and n not in dict(body)] or ['z'])
                if n not in dict(body):
                    body.append((n, rng.choice(LEAFS)() if rng.random() < 0.85
                                 else Raw(rng.choice(OTHER))))
        rng.shuffle(body)
        known += [n for n, _ in body if n not in known and n != '_']
        mode = None
        if base is not None and rng.random() < 0.4:
            mode = 'OVERRIDE'
            bo = rng.choice(BO_NAMES)
        base = ClassDef(fresh('Lv'), body, bo, base=base, mode=mode)
        gen.finish(base)
        chain.append(base)
    run_chain(case, chain)


def large_chain(case):
    """Hundreds of members, most of them paddings, at each level."""
    rng = case.rng
    bo = rng.choice(BO_NAMES)
    base, chain, known = None, [], []
    for level in range(rng.choice((2, 3))):
        if level and rng.random() < 0.5:
            # Others in between
            other = simple_class(fresh('Other'), [('_', Pad(1))] * rng.randint(1, 600) + [('x', Basic('int8'))], bo)
            run_chain(case, [other])
        body = []
        for n in known:
            if rng.random() < 0.1:
                body.append((n, rng.choice(LEAFS)()))
        for i in range(rng.choice((40, 130, 256, 300))):
            if rng.random() < 0.85:
                body.append(('_', Pad(rng.choice((1, 2, 3, 4)))))
            else:
                body.append((f'm{level}_{i}', rng.choice(LEAFS)()))
        known += [n for n, _ in body if n not in known and n != '_']
        base = ClassDef(fresh('Lv'), body, bo, base=base)
        gen.finish(base)
        chain.append(base)
    run_chain(case, chain)


ORDERS = list(BYTE_ORDERS) + [None]


# Bodies of base classes, and their members
CONTENTS = [
    ('    a: uint8\n    b: uint32\n', [('a', Basic('uint8')), ('b', Basic('uint32'))]),
    ('    pass\n', []),
    ('    a: uint32\n', [('a', Basic('uint32'))]),
    ('    a: T\n', [('a', Basic('uint32'))]),
    ('    _: pad[3]\n', [('_', Pad(3))]),
    ('    name: str\n    limit: ClassVar[int] = 3\n', []),
    ('    def method(self):\n        return 1\n', []),
]


def order_case(case):
    """Byte orders of base and subclass"""
    combos = [(a, b, m) for a in ORDERS for b in ORDERS for m in (None, 'STRICT', 'OVERRIDE')]
    a, b, mode = combos[case.index % len(combos)]
    levels = case.index // len(combos) % 3
    # What is in the base class
    content = case.index // len(combos) // 3 % len(CONTENTS)
    body, inner = CONTENTS[content]
    generic = 'T' in body
    real = {'LITTLE_ENDIAN': 'LE', 'BIG_ENDIAN': 'BE', None: 'DEFAULT'}
    same_order = real.get(a, a) == real.get(b, b)
    kw = '' if a is None else f', byte_order=ByteOrder.{a}'
    sub = '' if b is None else f', byte_order=ByteOrder.{b}'
    sub += '' if mode is None else f', byte_order_mode=ByteOrderMode.{mode}'
    base = f'class Base(Structured{kw}):\n{body}'
    origin = 'Base'
    if generic:
        base = f"T = TypeVar('T')\nclass Base(Generic[T], Structured{kw}):\n{body}"
        origin = 'Base[uint32]'
    if levels:
        base += f'class Mid({origin}{kw}):\n    ' + ('c: uint16\n' if levels == 1 else 'pass\n')
        origin = 'Mid'
    text = base + f'class Sub({origin}{sub}):\n    d: uint16\n'
    case.stats.case((a, b, mode, levels, content))
    if not same_order and mode != 'OVERRIDE':
        out = reject(case, lambda: define(case, text), 'a conflicting byte order was accepted',
                     base=a, subclass=b, mode=mode)
        if type(out) is not ValueError:
            raise Violation(f'conflicting byte order: {type(out).__name__}: {out}')
        ns = define(case, base)
    else:
        ns = define(case, text)
        sub = ns['Sub']
        cd = simple_class('Sub', inner + [('c', Basic('uint16'))] * (levels == 1)
                          + [('d', Basic('uint16'))], real.get(b, b))
        values = [1, 0x1020304][: len(cd.attrs) - 1 - (levels == 1)] + [0x506] * (levels == 1) + [0x708]
        want = cd.enc(Rec(cd, dict(zip(cd.attrs, values))))
        got = sub(*values).pack()
        if got != want:
            raise Violation(f'subclass packed {got!r}, expected {want!r}')
        back = sub.create_unpack(got)
        if [getattr(back, n) for n in cd.attrs] != values or sub.attrs != cd.attrs:
            raise Violation(f'subclass unpacked {back}')
        if sub.byte_order.name != {'LE': 'LITTLE_ENDIAN', 'BE': 'BIG_ENDIAN'}.get(
                real.get(b, b), real.get(b, b)):
            raise Violation(f'byte order of the subclass {sub.byte_order!r}')
    cd = simple_class('Base', [] if generic else inner, real.get(a, a))
    values = [1, 2][: len(cd.attrs)]
    want = cd.enc(Rec(cd, dict(zip(cd.attrs, values))))
    if ns['Base'](*values).pack() != want or ns['Base'].attrs != cd.attrs:
        raise Violation('the base class was affected')


MULTI = [
    ('class A(Structured):\n    a: uint8\nclass B(Structured):\n    b: uint8\n'
     'class C(A, B):\n    c: uint8\n', True),
    ('class A(Structured):\n    a: uint8\nclass B(Structured):\n    b: uint8\n'
     'class C(A, B, Structured):\n    pass\n', True),
    ('class A(Structured):\n    a: uint8\nclass B(A):\n    b: uint8\nclass C(A):\n    c: uint8\n'
     'class D(B, C):\n    pass\n', True),
    ('class A(Structured):\n    pass\nclass B(Structured):\n    pass\nclass C(B, A):\n    pass\n',
     True),
    ("T = TypeVar('T')\nclass A(Structured, Generic[T]):\n    a: T\nclass B(Structured):\n"
     "    b: uint8\nclass C(A[uint8], B):\n    pass\n", True),
    ("T = TypeVar('T')\nclass A(Structured, Generic[T]):\n    a: T\nclass B(Structured, Generic[T]):\n"
     "    b: T\nclass C(A[uint8], B[uint8]):\n    pass\n", True),
    ('class M:\n    def double(self):\n        return self.a * 2\n'
     'class A(M, Structured):\n    a: uint8\nclass C(A):\n    b: uint8\n', False),
    ('class M:\n    def double(self):\n        return self.a * 2\n'
     'class A(Structured):\n    a: uint8\nclass C(M, A):\n    b: uint8\n', False),
    ('class M:\n    def double(self):\n        return self.a * 2\n'
     'class A(Structured):\n    a: uint8\nclass C(A, M):\n    b: uint8\n', False),
    ('class A(Structured):\n    a: uint8\nclass C(A, Structured):\n    b: uint8\n'
     '    def double(self):\n        return self.a * 2\n', False),
    ('class M:\n    count = 0\n    def __init_subclass__(cls, tag=None, **kw):\n'
     '        super().__init_subclass__(**kw)\n        cls.tag = tag\n'
     'class A(Structured):\n    a: uint8\n'
     'class C(A, M, tag=4):\n    b: uint8\n    def double(self):\n        return self.a * 2\n', False),
]


def multi_case(case):
    body, refused = MULTI[case.index % len(MULTI)]
    future = 'from __future__ import annotations\n' if case.index // len(MULTI) % 2 else ''
    if future:
        body = body.replace("T = TypeVar('T')\n", "T = TypeVar('T')\n")
    case.stats.case((case.index % len(MULTI), future))
    if refused:
        out = reject(case, lambda: define(case, body, future), 'several Structured bases were accepted')
        if type(out) is not TypeError:
            raise Violation(f'several Structured bases: {type(out).__name__}: {out}')
        return
    ns = define(case, body, future)
    a, b = case.rng.randrange(100), case.rng.randrange(256)
    c = ns['C'](a, b)
    data = bytes((a, b))
    if c.pack() != data or c.double() != 2 * a or ns['C'].create_unpack(data) != c:
        raise Violation('a class with a mixin does not work')
    if ns['C'].attrs != ('a', 'b') or 'tag' in body and ns['C'].tag != 4:
        raise Violation('class attributes')


KINDS = {
    'basic': Kind(basic_chain, 1200, 40000),
    'chain': Kind(chain_case, 700, 25000),
    'large': Kind(large_chain, 16, 400),
    'orders': Kind(order_case, 9 * 9 * 3 * 3 * len(CONTENTS) // QUICK + 1, 9 * 9 * 3 * 3 * len(CONTENTS)),
    'multiple': Kind(multi_case, 2 * len(MULTI), 2 * len(MULTI)),
}
