"""Unions."""

import struct

from ..model import BYTE_ORDERS, Reader
from .common import *

ID = 'C10'
RULE = (
    'LookbackDecider with each kind of hint as the chosen type, decision values of many types (enums, None, equal values of other types, equal hashes, hundreds), '
    'with and without default; LookaheadDecider with each kind of read ahead type; unions in '
    'arrays, tuples and nested objects; the outcomes of one class taken in random order, also for one object whose members change; '
    'unmapped decisions for packing and unpacking; random schemas. Monitors: the chosen encoding, '
    'values and stream positions by the reference, and what each decider call saw of the object. '
    'Distinct: schema signature and packed bytes.'
)
KEYS = {
    'int': [Basic('uint8'), [0, 1, 2, 255]],
    'neg': [Basic('int16'), [-1, 0, 1, -32768]],
    'bytes': [CharN(2), [b'ab', b'\0\0', b'xy', b'ba']],
    'dyn': [DynChar('uint8'), [b'', b'a', b'abc', b'\0']],
    'text': [Uni(DynChar('uint8')), ['', 'a', 'é', 'aa']],
    'bool': [Basic('bool8'), [True, False]],
    'float': [Basic('float32'), [0.0, 1.5, -2.0, 1e10]],
    'tuple': [Tup((Basic('uint8'), Basic('int8'))), [(0, 0), (1, -1), (255, 127), (1, 1)]],
}


def lookback_case(case):
    """Each kind of hint as an outcome."""
    rng = case.rng
    name = sorted(KEYS)[case.index % len(KEYS)]
    key_node, keys = KEYS[name]
    leafs = rng.sample(LEAFS, min(len(keys), rng.randint(1, 4)))
    leafs[0] = LEAFS[case.index % len(LEAFS)]
    nodes = [leaf() for leaf in leafs]
    default = rng.choice(LEAFS)() if rng.random() < 0.5 else None
    # `spare` keys are unmapped
    chosen = rng.sample(keys, min(len(nodes), max(1, len(keys) - 1)))
    text = rng.choice((None, "operator.attrgetter('key')"))
    union = UnionLB(Pred('o.key', (), text=text), dict(zip(chosen, nodes)), default)
    shape = rng.randrange(4)
    node = union
    if shape == 1:
        node = Arr('uint8', rng.choice((None, 'uint16')), union)
    elif shape == 2:
        node = Tup((Basic('uint8'), union, DynChar('uint8')))
    fields = [('key', key_node), ('mid', Basic('uint16')), ('u', node), ('tail', Basic('uint8'))]
    bo = BO_NAMES[case.index % len(BO_NAMES)]
    if shape == 3:
        inner = simple_class(fresh('Ui'), fields, bo)
        cd = simple_class('Chooser', [('a', Arr('uint8', None, Nest(inner))), ('b', Nest(inner))], bo)
    else:
        cd = simple_class('Chooser', fields, bo)
    env = load(case, cd)
    b = battery(case, env)
    vg = ValueGen(rng)

    def make(cd_, key):
        rec = Rec(cd_, {'key': key})
        target = union.choose(key)
        rec.vals['mid'] = rng.randrange(65536)
        if shape == 1:
            v = [vg.value(target, rec) for _ in range(rng.randint(0, 3))]
        elif shape == 2:
            v = (rng.randrange(256), vg.value(target, rec), b'zz')
        else:
            v = vg.value(target, rec)
        rec.vals['u'] = v
        rec.vals['tail'] = rng.randrange(256)
        return rec

    try:
        order = list(keys) * 2
        kept = []
        rng.shuffle(order)
        for key in order:
            mapped = key in union.result_map or default is not None
            if not mapped:
                if shape in (0, 1, 2):
                    v = {0: 1, 1: [1], 2: (1, 1, b'')}[shape]
                    rec = Rec(cd, {'key': key, 'mid': 1, 'u': v, 'tail': 2})
                    case.stats.case((cd.sig(), 'unmapped', repr(key)), None)
                    b.refused(rec, 'unmapped')
                    # ... and for unpacking
                    head = simple_class('H', fields[:2], bo).enc(Rec(cd, {'key': key, 'mid': 1}))
                    b.unpacking(cd, head + bytes((1,)) + bytes(40), trailing=b'')
                continue
            if shape == 3:
                try:
                    rec = Rec(cd, {'a': [make(inner, rng.choice(
                        [k for k in keys if k in union.result_map or default])) for _ in range(3)],
                        'b': make(inner, key)})
                except Skip:
                    continue
            else:
                rec = make(cd, key)
            try:
                data = cd.enc(rec)
            except RefError:
                continue
            note(case, cd, rec, data)
            kept.append((b.roundtrip(rec)[0], rec))
            b.truncations(cd, data, 1)
            b.mutations(cd, data, 1)
        if kept:
            b.changed(kept[0][0], [rec for _, rec in kept[1:] + kept[:1]])
    finally:
        env.unload()


def lookahead_case(case):
    """Each kind of read ahead type."""
    rng = case.rng
    name = sorted(KEYS)[case.index % len(KEYS)]
    key_node, keys = KEYS[name]
    if case.index // len(KEYS) % 3 == 2:
        key_node, keys = rng.choice([
            (TermChar(), [b'', b'a', b'bc']), (NetChar(), [b'', b'xyz', b'q' * 200]),
            (Uni(TermChar(), 'utf8'), ['', 'k', 'é']),
            (Arr('uint8', None, Basic('uint8')), []),
            (Nest(simple_class(fresh('Ah'), [('n', Basic('uint16'))])), []),
            (Custom('VarInt'), [0, 300, 127]),
            (Basic('uint64'), [0, 2**64 - 1, 5]),
            (Basic('int8', wrap=1), [-1, 5, 0]),
            (Pascal(4), [b'', b'abc', b'z']),
        ])
        if not keys:
            key_node, keys = Basic('uint32'), [1, 2, 2**31]
    bo = BO_NAMES[case.index % len(BO_NAMES)]
    recs = []
    n = rng.randint(1, len(keys))
    for key in keys[:n]:
        extra = rng.choice(LEAFS)()
        recs.append(simple_class(fresh('Rc'), [('tag', key_node), ('v', extra)], bo))
    default = None
    if rng.random() < 0.5:
        default = Nest(simple_class(fresh('Rd'), [('tag', key_node), ('w', rng.choice(LEAFS)())], bo))
    text = rng.choice((None, "operator.attrgetter('u.tag')"))
    union = UnionLA(key_node, Pred('o.u.tag', (), text=text),
                    {k: Nest(r) for k, r in zip(keys, recs)}, default)
    fields = [('u', union), ('tail', Basic('uint8'))]
    if rng.random() < 0.5:
        fields.insert(0, ('lead', rng.choice(LEAFS)()))
    cd = simple_class('Ahead', fields, bo)
    if rng.random() < 0.3:
        inner = cd
        cd = simple_class('Outer', [('xs', Arr('uint8', 'uint32', Nest(inner))), ('z', Nest(inner))],
                          rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    try:
        union.spare_tags = keys[n:]
        for _ in range(4):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            b.roundtrip(rec)
            b.truncations(cd, data, 2)
            b.mutations(cd, data, 3)
        # An unmapped tag
        if default is None and keys[n:] and cd.fields[0][0] == 'u':
            bad = recs[0]
            rec = Rec(bad, {'tag': keys[-1], 'v': ValueGen(rng).value(dict(bad.fields)['v'], None)})
            try:
                data = bad.enc(rec)
            except RefError:
                return
            case.stats.case((cd.sig(), data, 'unmapped'), None)
            b.unpacking(cd, data + bytes(8), trailing=b'')
            b.refused(Rec(cd, {'u': rec, 'tail': 1}), 'unmapped')
    finally:
        env.unload()


def ahead_state(case):
    """Read ahead types which depend on earlier members themselves."""
    rng = case.rng

    def of_k(expr):
        return Pred(expr, (), text=f'lambda o: {expr}')

    def tag(depth=0):
        leaf = rng.choice((
            lambda: Basic('uint8'), lambda: Basic('uint16'), lambda: Basic('bool8'), lambda: CharN(2),
            lambda: DynChar('uint8'), lambda: Uni(DynChar('uint8')), lambda: TermChar(),
        ))
        r = rng.randrange(5 if depth < 2 else 3)
        if r == 0:
            node = leaf()
            return Cond(node, of_k(f'o.k & {1 << rng.randrange(3)}'), ValueGen(rng).value(node, None))
        if r == 1:
            return UnionLB(of_k('o.k % 3'), {0: leaf(), 1: leaf()}, leaf())
        if r == 2:
            return Custom('XorByte', 'k')
        if r == 3:
            return Tup(tuple(tag(depth + 1) for _ in range(rng.randint(1, 3))))
        return Tup((leaf(), tag(depth + 1)))

    ahead = tag()
    vg = ValueGen(rng)
    bo = BO_NAMES[case.index % len(BO_NAMES)]
    partials = [Rec(None, {'k': k}) for k in range(8)]
    tags = []
    for o in partials:
        for _ in range(3):
            t = vg.value(ahead, o)
            enc = ahead.enc(t, BYTE_ORDERS[bo], o)
            t = ahead.dec(Reader(enc), BYTE_ORDERS[bo], o)
            if not any(t == u for u in tags):
                tags.append(t)
    default = rng.random() < 0.5
    mapped = rng.sample(tags, rng.randint(1, len(tags))) if default else tags
    plain = [leaf for leaf in LEAFS if leaf().kind not in ('SerializeAs', 'custom')]
    leafs = lambda: Tup((ahead, rng.choice(plain)()))
    union = UnionLA(ahead, Pred('o.u[0]', (), text=rng.choice((None, 'lambda o: o.u[0]'))),
                    {t: leafs() for t in mapped}, leafs() if default else None)
    shape = rng.randrange(4)
    node = union
    if shape == 1:
        node = Tup((union, Basic('uint16')))
        union.pred = Pred('o.u[0][0]', (), text='lambda o: o.u[0][0]')
    fields = [('k', Basic('uint8')), ('u', node), ('tail', Basic('uint8'))]
    if shape == 2:
        fields.insert(1, ('lead', rng.choice(LEAFS)()))
    inner = cd = simple_class(fresh('As'), fields, bo)
    if shape == 3:
        cd = simple_class('Outer', [('xs', Arr('uint8', 'uint32', Nest(inner))), ('z', Nest(inner))],
                          rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)

    def outcome(vg, o):
        if o is None:
            raise gen.Skip
        t = vg.value(ahead, o)
        t = ahead.dec(Reader(ahead.enc(t, BYTE_ORDERS[bo], o)), BYTE_ORDERS[bo], o)
        try:
            return (t, vg.value(union.choose(t).items[1], o))
        except RefError:
            raise gen.Skip from None

    union.draw = outcome
    try:
        for _ in range(5):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            b.roundtrip(rec)
            b.truncations(cd, data, 2)
            b.mutations(cd, data, 3)
    finally:
        env.unload()


def final_union(case):
    """A union of which one outcome takes the rest of the data."""
    rng = case.rng
    union = UnionLB(Pred('o.k', ()), {0: ConsumeChar(), 1: rng.choice(LEAFS)()},
                    Uni(ConsumeChar()) if rng.random() < 0.5 else None)
    cd = simple_class('Fin', [('k', Basic('uint8')), ('u', union)], rng.choice(BO_NAMES))
    everything(case, cd, values=6, truncate=1, mutate=1)


KEY_HAND = '''
import enum

class Color(enum.Enum):
    RED = 'r'
    NONE = None
    ZERO = 0

class Level(enum.IntEnum):
    LOW = 40
    HIGH = 41

class Mode(str, enum.Enum):
    A = 'mode'

class Collide:
    def __init__(self, name):
        self.name = name
    def __hash__(self):
        return 7
    def __eq__(self, other):
        return isinstance(other, Collide) and self.name == other.name
    def __bool__(self):
        return False

POOL = [
    # Groups of keys which are equal
    (None,), (False, 0, 0.0), (True, 1, 1.0), ('',), ('a',), (b'',), (b'a',), ((),), ((1,), (True,), (1.0,)),
    (Color.RED,), (Color.NONE,), (Color.ZERO,), (Level.LOW, 40, 40.0), (Level.HIGH, 41), (Mode.A, 'mode'),
    (int,), (str,), (len,), (Ellipsis,), (NotImplemented,), (frozenset(),), (frozenset({1}),), (-1,), (-2,),
    (2**61 - 1 + 5,), (5,), (10**30,), (1.5,), (float('inf'),), (Collide('x'), Collide('x')), (Collide('y'),),
    (Exception,), (KeyError,), (KeyError(),), (range(3),), ('default',), ('None',), (2, 2.0), (range(0),),
]
CHOSEN = [None]

def build(outcomes, default, lookahead):
    union = Union[uint8, uint16, uint32, int64, char[uint8]]
    if lookahead:
        decider = LookaheadDecider(uint8, lambda o: CHOSEN[0], outcomes, default)
    else:
        decider = LookbackDecider(lambda o: CHOSEN[0], outcomes, default)
    class Keyed(Structured, byte_order=ByteOrder.BE):
        a: uint8
        u: Annotated[union, decider]
        z: uint16
    return Keyed

TYPES = [
    (uint8, 200, b'\\xc8'), (uint16, 300, b'\\x01\\x2c'), (uint32, 5, b'\\0\\0\\0\\5'),
    (int64, -2, b'\\xff' * 7 + b'\\xfe'), (char[uint8], b'qq', b'\\2qq'), (char[3], b'abc', b'abc'),
]
'''


def keys_case(case):
    """Decisions of all sorts of Python values, and many of them."""
    rng = case.rng
    ns = define(case, KEY_HAND)
    pool, types = ns['POOL'], ns['TYPES']
    if rng.random() < 0.15:
        step = rng.choice((1, 256, 2**61 - 1))
        pool = [(i * step,) for i in range(rng.choice((10, 100, 255, 256, 257, 400)))]
    groups = rng.sample(pool, len(pool))
    mapped = groups[: rng.choice((1, 2, len(pool) // 2, len(pool) - 1, len(pool)))]
    rest = groups[len(mapped):]
    outcomes, chosen = {}, {}
    for group in mapped:
        i = rng.randrange(len(types))
        outcomes[rng.choice(group)] = types[i][0]
        chosen[id(group)] = types[i]
    default = rng.choice((None, rng.choice(types)))
    Keyed = ns['build'](outcomes, default and default[0], False)
    ahead = [n for n in range(256) if n in outcomes]
    case.stats.case((len(pool), repr(sorted(map(repr, outcomes))), repr(default and default[1])))
    todo = [(g, k) for g in groups for k in g]
    rng.shuffle(todo)
    for group, key in todo[:60]:
        ns['CHOSEN'][0] = key
        hint, value, data = chosen.get(id(group)) or default or (None, 7, b'\7')
        o = Keyed(1, value, 2)
        data = b'\1' + data + b'\0\2'
        routes = {
            'pack': o.pack, 'pack_into': lambda: o.pack_into(bytearray(40)), 'pack_write': lambda: o.pack_write(io.BytesIO()),
            'create_unpack': lambda: Keyed.create_unpack(data),
            'create_unpack_from': lambda: Keyed.create_unpack_from(b'x' + data, 1),
            'create_unpack_read': lambda: Keyed.create_unpack_read(io.BytesIO(data)),
        }
        for name, fn in routes.items():
            if hint is None:
                out = reject(case, fn, f'{name} accepted a decision which is not mapped', key=key)
                if type(out) is not ValueError:
                    raise Violation(f'{name} with the decision {key!r}, not mapped, raised {out!r}')
                continue
            out = fn()
            if name == 'pack' and out != data:
                raise Violation(f'decision {key!r}: packed {out!r}, expected {data!r}')
            if name.startswith('create') and (out != o or type(out.u) is not type(value)):
                raise Violation(f'decision {key!r}: {name} gave {out!r}, expected {o!r}')
        case.stats.hit('decisions')
    if ahead:
        # Packing decides, unpacking looks at the next byte
        Keyed = ns['build']({n: outcomes[n] for n in ahead}, default and default[0], True)
        for n in rng.sample(ahead, min(len(ahead), 20)) + [n for n in (3, 99, 77) if n not in ahead]:
            hint = outcomes.get(n)
            hint, value, data = next((t for t in types if t[0] is hint), default or (None, 0, b''))
            if hint is None:
                data = b'\1' + bytes((n,)) * 12
                out = reject(case, lambda: Keyed.create_unpack(data), 'a byte not mapped was accepted', byte=n)
                if type(out) is not ValueError:
                    raise Violation(f'the byte {n}, not mapped, raised {out!r}')
                continue
            # Any data which starts with this byte
            raw = bytes((n,)) + bytes(rng.randrange(256) for _ in range(n + 12))
            inner = {'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'int64': 'q'}
            for name, code in inner.items():
                if hint is ns[name]:
                    want = struct.unpack_from('>' + code, raw)[0]
                    size = struct.calcsize('>' + code)
            if type(value) is bytes:
                want, size = (raw[:3], 3) if len(data) == 3 and data == b'abc' else (raw[1 : 1 + n], 1 + n)
            full = b'\1' + raw[:size] + b'\0\2' + b'rest'
            for x in (Keyed.create_unpack(full), Keyed.create_unpack_from(b'q' + full, 1),
                      Keyed.create_unpack_read(io.BytesIO(full))):
                if (x.a, x.u, x.z) != (1, want, 2):
                    raise Violation(f'the byte {n}: got {x!r}, expected {want!r}')
            ns['CHOSEN'][0] = n
            if Keyed(1, want, 2).pack() != full[:-4]:
                raise Violation(f'packing with the decision {n}')
            case.stats.hit('bytes_looked_at')


UNIONS = Profile(basic=20, lookback=35, lookahead=20, tuple=10, array=10, nest=10)
KINDS = {
    'lookback': Kind(lookback_case, 1600, 50000),
    'lookahead': Kind(lookahead_case, 1000, 30000),
    'ahead_state': Kind(ahead_state, 400, 12000),
    'keys': Kind(keys_case, 300, 8000),
    'final': Kind(final_union, 100, 3000),
    'random': random_kind(UNIONS, 1500, 60000, values=3, mutate=3),
}
