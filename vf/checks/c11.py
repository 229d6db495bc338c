"""Conditions."""

import struct

from ..model import BYTE_ORDERS
from .common import *

ID = 'C11'
RULE = (
    'Each kind of hint (and padding) guarded by a Condition on earlier members, alternating '
    'between true and false for objects of one class; chained and nested conditions; truthy and '
    'falsy results of several types; defaults of any kind; guarded members between basic ones; '
    'serializers of several values with a default for each; random schemas. Monitors: a skipped member takes no bytes, whatever its value, and '
    'unpacks to the default given; what each call of a condition saw of the object. Distinct: '
    'schema signature and packed bytes.'
)


def guarded_case(case):
    rng = case.rng
    makers = LEAFS + [lambda: Pad(3), ConsumeChar, lambda: Uni(ConsumeChar())]
    item = makers[case.index % len(makers)]()
    bo = BO_NAMES[case.index // len(makers) % len(BO_NAMES)]
    truthy = rng.choice(sorted(build.Hooks.TRUTHY))
    expr = rng.choice(('o.k & 1', 'o.k >= 4', 'o.k', 'not o.k', 'len(o.s)', "o.s == b'ab'"))
    default = None
    if item.nvals and rng.random() < 0.7:
        try:
            default = ValueGen(rng).value(item, None)
        except Skip:
            pass
    elif rng.random() < 0.5:
        default = rng.choice(('text', 17, (), b'none', 2.5))
    cond = Cond(item, Pred(expr, (), truthy), default)
    k = Basic('uint8')
    k.ctrl = True
    name = 'c' if item.nvals else '_'
    fields = [('k', k), ('s', DynChar('uint8')), (name, cond)]
    if not item.final:
        fields += [('m', Basic('uint32'))]
        if rng.random() < 0.5:
            fields.insert(2, ('n', Basic('uint8')))
        if rng.random() < 0.5:
            other = rng.choice(LEAFS)()
            cond2 = Cond(other, Pred('o.k & 2' if not item.nvals else 'o.k & 2', ()), 0)
            fields += [('d', cond2), ('z', Basic('int8'))]
    cd = simple_class('Guard', fields, bo)
    env = load(case, cd)
    b = battery(case, env)
    vg = ValueGen(rng)
    try:
        for _ in range(6):
            try:
                rec = vg.rec(cd)
            except Skip:
                continue
            if rng.random() < 0.4:
                rec.vals['s'] = rng.choice((b'ab', b''))
                if 'c' in rec.vals:
                    rec.vals['c'] = vg.value(cond, rec)
            try:
                data = cd.enc(rec)
            except RefError:
                continue
            note(case, cd, rec, data)
            case.stats.hit('conditions_true' if cond.pred(rec) else 'conditions_false')
            b.roundtrip(rec)
            b.truncations(cd, data, 2)
            b.mutations(cd, data, 1)
            if item.nvals and not cond.pred(rec):
                # The value of a skipped member does not matter, be it fit or not
                for junk in (None, 'junk', object(), -(10**30), rec):
                    o = env.obj(rec)
                    o.c = junk
                    if o.pack() != data:
                        b.fail('the value of a skipped member changed the data', value=junk,
                               got=o.pack(), want=data)
                    case.stats.hit('skipped_values')
    finally:
        env.unload()


def version_case(case):
    """Many optional members: which are there depends on a version."""
    rng = case.rng
    n = rng.randint(2, 7)
    fields = [('version', Basic('uint8'))]
    fields[0][1].ctrl = True
    for i in range(n):
        item = rng.choice(LEAFS)()
        pred = Pred(rng.choice((f'o.version >= {i}', f'o.version == {i}', f'o.version & {i + 1}',
                                f'o.version < {i}')), (), rng.choice(sorted(build.Hooks.TRUTHY)))
        default = rng.choice((None, 0, b'', (), 'default'))
        fields.append((f'v{i}', Cond(item, pred, default)))
        if rng.random() < 0.3:
            pad = Cond(Pad(rng.randint(1, 4)), Pred(pred.expr, ()), None)
            fields.append(('_', pad))
    cd = simple_class('Versioned', fields, rng.choice(BO_NAMES))
    everything(case, cd, values=8, truncate=1, mutate=1)


def chain_case(case):
    """Conditions on members which are conditional themselves, and conditions in
    conditions, tuples and arrays."""
    rng = case.rng
    k = Basic('uint8')
    k.ctrl = True
    a = Basic('uint8')
    a.ctrl = True
    inner = Cond(rng.choice(LEAFS)(), Pred('o.a > 2', ()), None)
    fields = [
        ('k', k),
        ('a', Cond(a, Pred('o.k > 3', ()), 0)),
        ('b', Cond(inner, Pred('o.k & 1', ()), 'outer')),
        ('t', Tup((Basic('uint8'), Cond(Basic('uint16'), Pred('o.a', ()), -1)))),
        ('xs', Arr('uint8', None, Tup((Basic('int8'), Cond(DynChar('uint8'), Pred('o.k & 2', ()), None))))),
        ('z', Basic('uint16')),
    ]
    rng.shuffle(tail := fields[2:])
    cd = simple_class('Chain', fields[:2] + tail, rng.choice(BO_NAMES))
    everything(case, cd, values=8, truncate=1, mutate=1)


CONDS = Profile(basic=25, cond=45, pad=8, lookback=6)
SEVERAL = [
    # Serializers of several values (source, codes of the values as packed)
    ("StructSerializer('2H')", 'HH'), ("StructSerializer('BhB')", 'BhB'), ("(StructSerializer('i') + StructSerializer('B'))", 'iB'),
    ("(StructSerializer('I') * 3)", 'III'), ("StructActionSerializer('2B', actions=(plus_one, str))", 'ab'),
    ("(DynamicCharSerializer(StructSerializer('B')) + StructSerializer('H'))", 'dH'),
    ("(StructSerializer('H') + DynamicCharSerializer(StructSerializer('B')) + StructSerializer('?'))", 'Hd?'),
    ("StructSerializer('x')", ''), ("StructSerializer('H2xB')", 'HxxB'), ("StructSerializer('q')", 'q'),
]


def several_case(case):
    """Conditions guarding serializers of several values, with a default for each."""
    rng = case.rng
    order = rng.choice(('LE', 'BE', 'NETWORK', 'NATIVE_STANDARD'))
    mark = BYTE_ORDERS[order]
    parts = []

    def part(depth=0):
        source, codes = rng.choice(SEVERAL)
        guards = []
        n = len(codes.replace('x', ''))
        for _ in range(rng.choice((0, 1, 1, 2))):
            bit = 1 << rng.randrange(4)
            names = [f'D[{len(defaults) + i}]' for i in range(n)]
            values = [object() for _ in range(n)]
            defaults.extend(values)
            guards.append((bit, values))
            source = f'Annotated[{source if source.startswith("Ann") else "Any, " + source}, Condition(lambda o: o.k & {bit}' \
                     + ''.join(', ' + x for x in names) + ')]'
        if not guards:
            source = f'Annotated[Any, {source}]'
        return source, codes, guards

    defaults = []
    parts = [part() for _ in range(rng.randint(1, 4))]
    tail = rng.choice(('uint8', 'char[uint8]'))
    lead = rng.random() < 0.5
    body = 'plus_one = lambda x: x + 1\n'
    body += f'class S(Structured, byte_order=ByteOrder.{order}):\n    k: uint8\n'
    body += f'    t: tuple[{"uint8, " if lead else ""}' + ', '.join(p[0] for p in parts) + f', {tail}]\n    z: uint16\n'
    ns = define(case, body, D=defaults)
    S = ns['S']

    def one(code):
        """value, how it is packed, as which it is unpacked"""
        if code == 'd':
            v = bytes(rng.randrange(256) for _ in range(rng.randrange(5)))
            return v, bytes((len(v),)) + v, v
        if code in 'ab':
            v = rng.randrange(256)
            return v, bytes((v,)), v + 1 if code == 'a' else str(v)
        if code == '?':
            v = rng.random() < 0.5
            return v, bytes((v,)), v
        size = struct.calcsize('=' + code)
        raw = bytes(rng.randrange(256) for _ in range(size))
        v = struct.unpack(mark + code, raw)[0]
        return v, raw, v

    for _ in range(6):
        k = rng.randrange(16)
        given, data, want = [], b'', []
        if lead:
            given, data, want = [5], b'\5', [5]
        for source, codes, guards in parts:
            # The guard applied last is asked first
            skipped = next((values for bit, values in reversed(guards) if not k & bit), None)
            i = 0
            for code in codes:
                if code == 'x':
                    data += b'' if skipped else b'\0'
                    continue
                v, raw, back = one(code)
                given.append(v)
                data += b'' if skipped else raw
                want.append(skipped[i] if skipped else back)
                i += 1
            if not codes and not any(not k & bit for bit, _ in guards):
                data += b'\0'
        v, raw, back = one('d' if tail != 'uint8' else 'B')
        given.append(v)
        want.append(back)
        data = bytes((k,)) + data + raw + struct.pack(mark + 'H', 777)
        o = S(k, tuple(given), 777)
        case.stats.case((order, body, data), None)
        buf, out = bytearray(len(data) + 4), io.BytesIO()
        o.pack_into(buf, 2)
        o.pack_write(out)
        for got in (o.pack(), out.getvalue(), bytes(buf[2:-2])):
            if got != data:
                raise Violation(f'k = {k}: packed {got!r}, expected {data!r}')
        stream = io.BytesIO(b'aa' + data + b'bb')
        stream.seek(2)
        for x in (S.create_unpack(data + b'q'), S.create_unpack_from(b'w' + data, 1), S.create_unpack_read(stream)):
            if x.k != k or x.z != 777 or x.t != tuple(want):
                raise Violation(f'k = {k}: {data!r} unpacked to {x!r}, expected {want!r}')
        if stream.tell() != 2 + len(data) or S.serializer.size != len(data):
            raise Violation(f'k = {k}: stream at {stream.tell()}, size {S.serializer.size}, expected {len(data)}')
        case.stats.hit('several_values')


KINDS = {
    'several': Kind(several_case, 300, 10000),
    'guarded': Kind(guarded_case, 1200, 40000),
    'versions': Kind(version_case, 600, 20000),
    'chains': Kind(chain_case, 500, 15000),
    'random': random_kind(CONDS, 1500, 60000, values=3),
}
