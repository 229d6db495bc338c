"""Structured objects as Python objects."""

import copy
import pickle

from structured import ByteOrder

from .common import *

ID = 'C16'
QUICK = 8
RULE = (
    'Random classes (generated, own and dataclass __init__, slots, subclasses; awkward names of '
    'members) and values: initialized in order, by name and mixed, with missing, additional and '
    'unknown arguments; compared after changing each single member, with objects of sub- and other '
    'classes; str and repr searched for each member; attributes which are not serialized watched '
    'during packing and unpacking; __post_init__ calls recorded; copies and pickles. Distinct: '
    'schema signature and packed bytes.'
)

AWKWARD = ('self', 'cls', 'values', 'buffer', 'offset', 'Self', 'Union', 'int', 'Any', 'value',
           'args', 'kwargs', 'proxy', 'attr', 'readable', 'writable', 'size', 'num_values', 'name',
           '_', '_private', 'format', 'obj', 'other', 'é', 'type', 'object', 'list', 'bytes',
           'partial_object', 'origin', 'Structured', 'super', 'str', 'count')


class Post:
    """Watches __post_init__ of the classes."""

    calls = None


def other_value(case, node, rec, n):
    """A value of the member which does not compare equal."""
    for _ in range(8):
        try:
            v = ValueGen(case.rng).value(node, rec)
        except (Skip, RefError):
            return None
        old = rec.vals[n]
        if not loose(v, old):
            return v
    return None


def loose(a, b):
    """Equality as of Python, on model values."""
    if isinstance(a, Rec) or isinstance(b, Rec):
        return (isinstance(a, Rec) and isinstance(b, Rec) and a.cd is b.cd
                and all(loose(a.vals[k], b.vals[k]) for k in a.cd.attrs))
    if type(a) in (list, tuple) and type(b) is type(a):
        return len(a) == len(b) and all(map(loose, a, b))
    # NOTE: lists compare identical items by identity, also NaN
    return a == b or (a != a and b != b)


def has_nan(v):
    if isinstance(v, Rec):
        return any(map(has_nan, v.vals.values()))
    if type(v) in (list, tuple):
        return any(map(has_nan, v))
    return v != v


def initialize(case, env, cd, rec):
    rng = case.rng
    cls = env.cls(cd)
    values = env.values(rec)
    names = list(cd.attrs)

    def look(o, how):
        for n, v in zip(names, values):
            if getattr(o, n) is not v:
                raise Violation(f'{how}: member {n} is {getattr(o, n)!r}, expected {v!r}')

    look(cls(*values), 'initialized in order')
    if '_' in names:
        return
    pairs = list(zip(names, values))
    rng.shuffle(pairs)
    look(cls(**dict(pairs)), 'initialized by name')
    k = rng.randint(0, len(names))
    look(cls(*values[:k], **dict(zip(names[k:], values[k:]))), 'initialized mixed')
    bad = [('too many values', lambda: cls(*values, 0)),
           ('an unknown name', lambda: cls(*values, **{'no_such_member': 1}))]
    if names:
        i = rng.randrange(len(names))
        rest = dict(zip(names, values))
        del rest[names[i]]
        bad += [('too few values', lambda: cls(*values[:-1])),
                ('a missing name', lambda: cls(**rest)),
                ('a value given twice', lambda: cls(*values, **{names[i]: values[i]})),
                ('no values', lambda: cls())]
    for what, fn in bad:
        out = reject(case, fn, f'__init__ accepted {what}', cls=cd.sig(), names=names)
        if type(out) is not TypeError:
            raise Violation(f'__init__ with {what} raised {type(out).__name__}: {out}')


def comparing(case, env, cd, rec):
    x, y = env.obj(rec), env.obj(rec)
    if not has_nan(rec) and not (x == y and not x != y and x == x):
        raise Violation(f'equal objects do not compare equal: {x!r} {y!r}')
    if not has_nan(rec):
        # Whatever else there is to the objects: packed differently, used, with attributes of their own
        y = y.with_byte_order(case.rng.choice(list(ByteOrder)))
        if case.rng.random() < 0.5:
            y.pack()
        if case.rng.random() < 0.5 and hasattr(y, '__dict__'):
            y.not_a_member = 5
        if not (x == y and y == x) or x != y or y != x:
            raise Violation(f'objects with equal members do not compare equal: {x!r} {y!r}')
    for n, node in cd.named():
        v = other_value(case, node, rec, n)
        if v is None:
            continue
        other = Rec(cd, {**rec.vals, n: v})
        z = env.obj(rec)
        setattr(z, n, env.values(other)[cd.attrs.index(n)])
        if z == x or x == z or not z != x:
            raise Violation(f'objects which differ in {n} compare equal: {x!r} {z!r}')
        case.stats.hit('different_objects')
    cls = type(x)
    sub = type('Sub', (cls,), {}, byte_order=cls.byte_order)
    twin = type(cd.name, (cls,), {'__module__': cls.__module__}, byte_order=cls.byte_order)
    s = sub(*env.values(rec))
    t = twin(*env.values(rec))
    if s == x or x == s or not s != x or t == x or x == t:
        raise Violation('objects of a class and a subclass compare equal')
    for thing in (None, 0, 'x', env.values(rec), tuple(env.values(rec)), object(), cls):
        if x == thing or thing == x or not x != thing:
            raise Violation(f'object compares equal to {thing!r}')
    if cls.__eq__(x, 5) is not NotImplemented:
        raise Violation('comparing with another type is not left to that type')


def printing(case, env, cd, rec):
    x = env.obj(rec)
    text = str(x)
    if repr(x) != f'<{text}>' and cd.style != 'dataclass':
        raise Violation(f'repr is {x!r}, str is {text}')
    if not text.startswith(cd.name):
        raise Violation(f'no name of the class in {text}')
    pos = len(cd.name)
    for n in cd.attrs:
        v = getattr(x, n)
        at = text.find(f'{n}=', pos)
        shown = [s for s in (format(v), str(v), repr(v)) if text.startswith(s, at + len(n) + 1)]
        if at < 0 or not shown:
            raise Violation(f'member {n} not shown in {text}')
        pos = at + len(n) + 1 + len(shown[0])


def keeping(case, env, cd, rec, data):
    """Other attributes are left alone."""
    x = env.obj(rec)
    mark = object()
    if not hasattr(x, '__dict__'):
        return
    shown = str(x), repr(x)
    y = env.obj(rec)
    x.not_serialized = mark
    y.not_serialized = 0
    if cd.style != 'dataclass' and (str(x), repr(x)) != shown:
        raise Violation(f'an attribute which is not a member is shown: {x}')
    if not has_nan(rec) and (not x == y or x != y):
        raise Violation('objects with equal members differ, because of another attribute')
    raws = [n for n, node in cd.body if isinstance(node, Raw)]
    for n in raws:
        setattr(x, n, mark)
    before = dict(vars(x))
    x.pack()
    x.pack_into(bytearray(len(data)), 0)
    x.pack_write(io.BytesIO())
    after = dict(vars(x))
    if list(before) != list(after) or any(before[k] is not after[k] for k in before):
        raise Violation('packing changed attributes of the object')
    for fn in (lambda: x.unpack(data), lambda: x.unpack_from(data, 0),
               lambda: x.unpack_read(io.BytesIO(data))):
        ok, out = attempt(fn)
        if not ok:
            return
        after = dict(vars(x))
        if set(after) != set(before):
            raise Violation(f'unpacking changed the set of attributes: {set(after) ^ set(before)}')
        for k in before:
            if k not in cd.attrs and after[k] is not before[k]:
                raise Violation(f'unpacking changed the attribute {k}')
        case.stats.hit('attributes_kept', len(before) - len(cd.attrs))


def copying(case, env, cd, rec, data):
    x = env.obj(rec)
    copies = [copy.copy(x), copy.deepcopy(x)]
    if not any(isinstance(nd, (SerAs,)) for c in cd.classes().values()
               for _, f in c.fields for nd in build.walk_local(f)):
        copies.append(pickle.loads(pickle.dumps(x)))
    for c in copies:
        if type(c) is not type(x) or env.freeze(c) != env.freeze(x) or c.pack() != data:
            raise Violation(f'the copy {c!r} of {x!r} differs')
    case.stats.hit('copies', len(copies))


def protocol(case, env, cd, rec, data):
    initialize(case, env, cd, rec)
    if cd.style != 'dataclass':
        comparing(case, env, cd, rec)
    printing(case, env, cd, rec)
    keeping(case, env, cd, rec, data)
    copying(case, env, cd, rec, data)


def random_case(case):
    p = Profile(max_fields=5, depth=2, styles=0.3, inherit=0.3)
    cd = schema(case, p)
    env = load(case, cd)
    try:
        for _ in range(2):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            note(case, cd, *drawn)
            protocol(case, env, cd, *drawn)
    finally:
        env.unload()


def names_case(case):
    """Members with awkward names, through the whole battery."""
    rng = case.rng
    n = rng.randint(1, 6)
    names = rng.sample(AWKWARD, n)
    future = None
    if case.index < 2 * len(AWKWARD):
        names[0] = AWKWARD[case.index // 2]
        names = list(dict.fromkeys(names))
        future = case.index % 2 == 1
    fields = []
    for i, name in enumerate(names):
        # Names of types stay usable in the class body: hints do not assign
        fields.append((name, rng.choice(LEAFS)()))
    cd = simple_class('Awkward', fields, rng.choice(BO_NAMES))
    env = load(case, cd, future)
    b = battery(case, env)
    try:
        drawn = draw(case, cd)
        if drawn is None:
            return
        note(case, cd, *drawn)
        b.roundtrip(drawn[0])
        protocol(case, env, cd, *drawn)
    finally:
        env.unload()


def post_case(case):
    """__post_init__ is called once, with all of the members set."""
    rng = case.rng
    nodes = [rng.choice(LEAFS)() for _ in range(rng.randint(0, 4))]
    fields = [(f'm{i}', nd) for i, nd in enumerate(nodes)]
    extra = [
        'posts = []',
        'def __post_init__(self):',
        '    self.posts.append((self, dict(vars(self))))',
        '    self.extra = len(self.posts)',
    ]
    base = simple_class('Post', fields, extra=extra)
    cd = base
    if rng.random() < 0.4:
        cd = simple_class('PostSub', [('more', rng.choice(LEAFS)())], base=base)
    env = load(case, cd)
    try:
        drawn = draw(case, cd)
        if drawn is None:
            return
        rec, data = drawn
        note(case, cd, rec, data)
        cls = env.cls(cd)
        posts = cls.posts
        values = env.values(rec)
        try:
            cd.decode(data)
        except RefError:
            return
        for fn in (lambda: cls(*values), lambda: cls.create_unpack(data),
                   lambda: cls.create_unpack_from(b'xy' + data, 2),
                   lambda: cls.create_unpack_read(io.BytesIO(data))):
            posts.clear()
            x = fn()
            if len(posts) != 1 or posts[0][0] is not x:
                raise Violation(f'__post_init__ was called {len(posts)} times')
            if sorted(posts[0][1]) != sorted(cd.attrs) or any(
                    posts[0][1][n] is not getattr(x, n) for n in cd.attrs):
                raise Violation(f'__post_init__ saw {posts[0][1]}')
            if x.extra != 1 or x.pack() is None or x.extra != 1:
                raise Violation('attribute set by __post_init__ is lost')
            case.stats.hit('post_init_calls')
        y = cls(*values)
        posts.clear()
        y.extra = mark = object()
        for fn in (lambda: y.unpack(data), lambda: y.unpack_from(b'xy' + data, 2),
                   lambda: y.unpack_read(io.BytesIO(data)), lambda: y.pack(),
                   lambda: y.pack_into(bytearray(len(data)), 0),
                   lambda: y.pack_write(io.BytesIO()), lambda: (str(y), y == y)):
            attempt(fn)
            if posts or y.extra is not mark:
                raise Violation('__post_init__ was called for an existing object')
    finally:
        env.unload()


def large_case(case):
    """Hundreds of members, each of which counts."""
    rng = case.rng
    n = rng.choice((20, 64, 100, 128, 254, 255, 256, 257, 300, 400))
    nodes = [rng.choice(LEAFS)() if rng.random() < 0.2 else Basic(rng.choice(('uint8', 'int16', 'bool8')))
             for _ in range(n)]
    fields = [(f'm{i}', nd) for i, nd in enumerate(nodes)]
    cd = simple_class('Large', fields, rng.choice(BO_NAMES))
    env = load(case, cd)
    try:
        drawn = draw(case, cd)
        if drawn is None:
            return
        note(case, cd, *drawn)
        protocol(case, env, cd, *drawn)
    finally:
        env.unload()


HAND = '''
class Slots(Structured):
    __slots__ = ('a', 'b')
    a: uint8
    b: char[uint8]

class Defaults(Structured):
    a: uint8 = 5
    b: char[uint8] = b'x'
    note: str = 'none'

class OwnEq(Structured):
    a: uint8
    b: char[uint8]
    def __eq__(self, other):
        return super().__eq__(other) and self.tag == other.tag
    tag = 0

class OwnInit(Structured, init=False):
    a: uint8
    b: char[uint8]
    def __init__(self, a=1, b=b'', *, tag=3):
        self.a, self.b, self.tag = a, b, tag

@dataclass
class Data(Structured, init=False):
    a: uint8 = 1
    b: char[uint8] = b''

@dataclass(frozen=False, order=True)
class Ordered(Structured, init=False):
    a: uint8
    b: char[uint8]

class Inherited(OwnInit, init=False):
    pass

class Property(Structured):
    a: uint8
    b: char[uint8]
    @property
    def total(self):
        return self.a + len(self.b)
    @classmethod
    def make(cls):
        return cls(1, b'2')
    @staticmethod
    def helper():
        return 7
'''


def hand_case(case):
    ns = define(case, HAND, 'from __future__ import annotations\n' if case.index % 2 else '')
    a, b = case.rng.randrange(256), bytes(case.rng.randrange(256) for _ in range(case.rng.randrange(5)))
    data = bytes((a, len(b))) + b
    case.stats.case((a, b, case.index % 2))
    for name in ('Slots', 'Defaults', 'OwnEq', 'OwnInit', 'Data', 'Ordered', 'Inherited', 'Property'):
        cls = ns[name]
        x = cls(a, b)
        if cls.attrs != ('a', 'b') or x.pack() != data:
            raise Violation(f'{name}: {cls.attrs}, {x.pack()!r}')
        y = cls.create_unpack(data)
        if type(y) is not cls or (y.a, y.b) != (a, b) or not x == y or x != y:
            raise Violation(f'{name}: {y!r} should equal {x!r}')
        z = cls((a + 1) % 256, b'q')
        if z == x or not z != x:
            raise Violation(f'{name}: {z!r} should differ from {x!r}')
        for route in ('unpack', 'unpack_from', 'unpack_read'):
            z = cls(case.rng.randrange(256), b'q')
            if hasattr(z, '__dict__') and name != 'OwnEq':
                z.tag = 9
            getattr(z, route)(io.BytesIO(data) if route == 'unpack_read' else data)
            if z != x or getattr(z, 'tag', 9) != 9 and name != 'OwnEq':
                raise Violation(f'{name}: {route}() into an existing object')
        if name in ('Slots',) and hasattr(x, '__dict__'):
            raise Violation('slots are lost')
        late = cls.__new__(cls)
        late.b, late.a = b, a
        if late != x and name != 'OwnEq':
            raise Violation(f'{name}: the order of setting members matters')
        for text in (str(x), repr(x), str(late)):
            if name not in text or f'a={a}' not in text or f'b={b!r}' not in text:
                raise Violation(f'{name}: {text} does not show its members')
        if name == 'OwnEq':
            z.tag = 1
            if z == x:
                raise Violation('own __eq__ ignored')
        if name in ('OwnInit', 'Inherited') and (cls().pack() != b'\1\0' or y.tag != 3):
            raise Violation(f'{name}: own __init__ ignored')
        if name == 'Data' and (cls().pack() != b'\1\0' or repr(x) != f'Data(a={a!r}, b={b!r})'):
            raise Violation(f'dataclass: {x!r}')
        if name == 'Defaults':
            reject(case, lambda: cls(), 'an __init__ without values')
            if y.note != 'none':
                raise Violation('class attribute lost')
        if name == 'Property' and (x.total != a + len(b) or cls.make().pack() != b'\1\1' + b'2'
                                   or cls.helper() != 7):
            raise Violation('methods of the class')


class Odd:
    """Compares as told"""

    def __init__(self, answer):
        self.answer = answer

    def __eq__(self, other):
        return self.answer

    __hash__ = None


NAN = float('nan')
ODD = [
    0, 0.0, -0.0, False, 1, True, 1.0, 2, None, '', b'', 'a', b'a', (), [], [1], (1,), [1.0], NAN, float('nan'), [NAN],
    Odd(False), Odd(True), Odd(0), Odd('yes'), Odd([]), Odd(NotImplemented), object(), int, bytearray(b'a'),
    memoryview(b'a'), 10**30, 1e30, 2**53, 2.0**53, 2**53 + 1, {1: 2}, {}, range(0), float('inf'), complex(1, 0),
]


def values_case(case):
    """Comparing goes by how the members compare, whatever these are"""
    rng = case.rng
    n = rng.choice((1, 1, 2, 3, 5))
    ns = define(case, 'class V(Structured):\n' + ''.join(f'    m{i}: {rng.choice(("uint8", "char[uint8]", "float64"))}\n'
                                                        for i in range(n)))
    V = ns['V']
    for _ in range(30):
        left = [rng.choice(ODD) for _ in range(n)]
        right = [v if rng.random() < 0.7 else rng.choice(ODD) for v in left]
        # NOTE: as CPython compares, each member, up to the first which differs
        want = all(a == b for a, b in zip(left, right))
        if {want} != {all(a is b or a == b for a, b in zip(left, right)), all(b == a for a, b in zip(left, right)),
                      not any(a != b for a, b in zip(left, right))}:
            # Whether identical values which do not equal themselves make a difference is not
            # promised (it does not for tuples and dataclasses), nor which of the two is asked
            continue
        x, y = V(*left), V(*right)
        if rng.random() < 0.2 and all(a is b for a, b in zip(left, right)):
            y = x
        case.stats.case((n, repr([type(v).__name__ for v in left]), want), None)
        if (x == y) is not want or (x != y) is want:
            raise Violation(f'{left!r} and {right!r}: == gives {x == y!r}, != gives {x != y!r}')
        for v, m in zip(left, V.attrs):
            if getattr(x, m) is not v:
                raise Violation(f'member {m} is not the value given')
        case.stats.hit('compared_equal' if want else 'compared_different')


KINDS = {
    'values': Kind(values_case, 100, 4000),
    'hand': Kind(hand_case, 40, 400),
    'names': Kind(names_case, 300, 10000),
    'large': Kind(large_case, 4, 200),
    'post': Kind(post_case, 300, 10000),
    'random': Kind(random_case, 900, 30000),
}
