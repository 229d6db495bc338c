"""Serializers used and combined directly."""

import struct
from types import SimpleNamespace

from structured import ByteOrder, serializers
from structured.serializers import NullSerializer, Serializer, StructActionSerializer, StructSerializer

from ..build import MISSING
from ..model import dec_seq, enc_seq, CharN, Reader, SIZE_TYPES
from .common import *

ID = 'C22'
QUICK = 2
RULE = (
    'Random classes are cut into consecutive groups of members; the serializers of the groups are '
    'added in random grouping, with null serializers and sum() in between, and the sum, its parts, '
    'and both with another byte order are used by all routes, against the reference of the whole '
    'and of each part. The same with serializers made for the members of random classes by calling '
    'the constructors. Arithmetic of struct serializers, with and without actions: random formats '
    'and programs of +, *, @ and with_byte_order, against the struct module, and compared with others. User written '
    'serializers which report how they were prepared, in every place of random classes. Distinct: '
    'schema and grouping; expression and byte order; schema and packed bytes.'
)
ORDERS = {n: getattr(ByteOrder, n) for n in BO_NAMES}


def same_all(got, want):
    return len(got) == len(want) and all(map(same, got, want))


def use_packing(case, what, ser, vals, ref, o):
    """Each packing route gives the bytes, sets the size, and writes nowhere else."""
    rng = case.rng
    for route in ('pack', 'pack_into', 'pack_write'):
        s = ser.prepack(o)
        if not isinstance(s, Serializer):
            raise Violation(f'{what}: prepack() returned {s!r}')
        if route == 'pack':
            out = s.pack(*vals)
        elif route == 'pack_into':
            pre, post = bytes(rng.randrange(5)), b'\x99' * rng.randrange(4)
            buffer = bytearray(pre + b'\xa5' * len(ref) + post)
            s.pack_into(buffer, len(pre), *vals)
            out = bytes(buffer[len(pre) : len(pre) + len(ref)])
            if bytes(buffer) != pre + out + post:
                raise Violation(f'{what}: pack_into() wrote elsewhere')
        else:
            stream = io.BytesIO()
            s.pack_write(stream, *vals)
            out = stream.getvalue()
        case.stats.hit('direct ' + route)
        if out != ref:
            raise Violation(f'{what}: {route}{short(vals)} gave {short(out)}, expected {short(ref)}')
        if s.size != len(ref):
            raise Violation(f'{what}: size is {s.size} after {route}() of {len(ref)} bytes')


def use_unpacking(case, what, ser, data, o, check, final):
    rng = case.rng
    for route in ('unpack', 'unpack_from', 'unpack_read'):
        s = ser.preunpack(o)
        post = b'' if final else b'\x99' * rng.choice((0, 1, 7))
        pre = b'\x55' * rng.choice((0, 1, 4))
        if route == 'unpack':
            out = s.unpack(rng.choice((bytes, bytearray, memoryview))(data + post))
        elif route == 'unpack_from':
            # The offset can be left out
            at = (len(pre),) if pre or rng.random() < 0.5 else ()
            out = s.unpack_from(rng.choice((bytes, bytearray, memoryview))(pre + data + post), *at)
        else:
            stream = io.BytesIO(pre + data + post)
            stream.seek(len(pre))
            out = s.unpack_read(stream)
        out = tuple(out)
        case.stats.hit('direct ' + route)
        if route == 'unpack_read' and stream.tell() != len(pre) + len(data):
            raise Violation(f'{what}: unpack_read() used {stream.tell() - len(pre)} of {len(data)} bytes')
        if s.size != len(data):
            raise Violation(f'{what}: size is {s.size} after {route}() of {len(data)} bytes')
        if len(out) != ser.num_values:
            raise Violation(f'{what}: {route}() gave {len(out)} values, num_values is {ser.num_values}')
        check(f'{what}: {route}()', out)


class Part:
    """A serializer for consecutive members, and the rest of the world."""

    def __init__(self, ser, lo, hi):
        self.ser, self.lo, self.hi = ser, lo, hi


class Bench:
    """Uses serializers of consecutive members of `cd` on the values of `rec`."""

    def __init__(self, case, env, cd, rec):
        self.case, self.env, self.cd, self.rec = case, env, cd, rec
        self.lib = dict(zip(cd.attrs, env.values(rec)))

    def use(self, what, ser, lo, hi, bo):
        nodes = self.cd.nodes[lo:hi]
        names = [n for n, node in self.cd.fields[lo:hi] if node.nvals]
        if ser.num_values != len(names):
            raise Violation(f'{what}: num_values is {ser.num_values} instead of {len(names)}')
        final = bool(nodes) and nodes[-1].final
        if bool(ser.is_final()) != final or (ser.get_final() is not None) != final:
            raise Violation(f'{what}: is_final() is {ser.is_final()!r}')
        rec = self.rec
        ref = enc_seq(nodes, [rec.vals[n] for n in names], bo, rec)
        vals = [self.lib[n] for n in names]
        use_packing(self.case, what, ser, vals, ref, SimpleNamespace(**self.lib))
        if isinstance(ser, StructSerializer) or self.hi_level(ser):
            for bad in (vals[:-1], vals + [0]) if vals else ([0],):
                reject(self.case, lambda: ser.prepack(SimpleNamespace(**self.lib)).pack(*bad),
                       f'{what}: packed {len(bad)} instead of {len(vals)} values')
        # Earlier members are what was packed
        want = Rec(self.cd, dict(rec.vals))
        for n in self.cd.attrs:
            if n in names:
                del want.vals[n]
        rd = Reader(ref)
        try:
            dec_seq(nodes, rd, bo, want, lambda i, v: want.vals.__setitem__(names[i], v))
        except RefError:
            return
        if rd.pos != len(ref):
            return  # Some embedded terminator
        if bo != self.cd.bo and any(isinstance(s, UnionLA) for nd in nodes for s in build.walk_local(nd)):
            return  # Nested objects keep their byte order, what is read ahead does not
        # Conversions might look at any of the members
        ordered = Rec(self.cd, {n: want.vals[n] for n in self.cd.attrs})
        try:
            partial = SimpleNamespace(**dict(zip(self.cd.attrs, self.env.values(ordered))))
        except Exception:
            return

        def check(what, out):
            outer, self.env.current = self.env.current, ordered
            try:
                for n, x in zip(names, out):
                    node = dict(self.cd.named())[n]
                    try:
                        got = self.env.unlib(node, x)
                    except Mismatch as e:
                        raise Violation(f'{what}: {n}: {e}') from None
                    if not same(got, want.vals[n]):
                        raise Violation(f'{what}: {n} is {short(got)}, expected {short(want.vals[n])}')
            finally:
                self.env.current = outer

        use_unpacking(self.case, what, ser, ref, partial, check, final)

    @staticmethod
    def hi_level(ser):
        return type(ser).__name__ == 'CompoundSerializer'


def bracket(rng, parts, text):
    """Random grouping of the sum of parts; yields each sum made."""
    if len(parts) == 1:
        (part,) = parts
        return part, f'{text}{part.lo}'
    cut = rng.randrange(1, len(parts))
    a, ta = bracket(rng, parts[:cut], text)
    b, tb = bracket(rng, parts[cut:], text)
    ser = a.ser + b.ser
    if rng.random() < 0.15:
        ser = rng.choice((lambda s: NullSerializer() + s, lambda s: s + NullSerializer()))(ser)
    return Part(ser, a.lo, b.hi), f'({ta} + {tb})'


def sum_case(case):
    rng = case.rng
    cd = schema(case, Profile(self=0, raw=0, styles=0, max_fields=7, depth=2, custom=6))
    cd = ClassDef(cd.name, [(n, nd) for n, nd in cd.body if isinstance(nd, Node)], cd.bo_name)
    gen.finish(cd)
    n = len(cd.fields)
    if n < 2:
        return
    cuts = sorted(rng.sample(range(1, n), rng.randint(1, n - 1)))
    bounds = list(zip([0] + cuts, cuts + [n]))
    groups = [ClassDef(f'G{lo}', cd.body[lo:hi], cd.bo_name) for lo, hi in bounds]
    env = load(case, groups)
    env.hooks.log = None
    try:
        parts = [Part(env.cls(g).serializer, lo, hi) for g, (lo, hi) in zip(groups, bounds)]
        sums = []
        for _ in range(2):
            total, text = bracket(rng, parts, 'G')
            sums.append((text, total.ser))
        sums.append(('sum', sum((p.ser for p in parts), NullSerializer())))
        case.stats.case((cd.sig(), tuple(t for t, _ in sums)), {
            'schema': short(cd.sig(), 200), 'groupings': [t for t, _ in sums]})
        bo2 = rng.choice(BO_NAMES)
        for _ in range(2):
            drawn = draw(case, cd)
            if drawn is None:
                return
            bench = Bench(case, env, cd, drawn[0])
            for text, ser in sums:
                bench.use(text, ser, 0, n, cd.bo)
            for part, (lo, hi) in zip(parts, bounds):
                bench.use(f'G{lo} after the addition', part.ser, lo, hi, cd.bo)
            for text, ser in sums:
                other = ser.with_byte_order(ORDERS[bo2])
                try:
                    bench.use(f'{text}.with_byte_order({bo2})', other, 0, n, BYTE_ORDERS[bo2])
                except RefError:
                    pass
                bench.use(f'{text} after with_byte_order({bo2})', ser, 0, n, cd.bo)
                again = other.with_byte_order(ORDERS[cd.bo_name])
                bench.use(f'{text} back from {bo2}', again, 0, n, cd.bo)
            # Parts of another byte order, joined
            moved = [Part(p.ser.with_byte_order(ORDERS[bo2]), p.lo, p.hi) for p in parts]
            total, text = bracket(rng, moved, f'{bo2}:')
            try:
                bench.use(text, total.ser, 0, n, BYTE_ORDERS[bo2])
            except RefError:
                pass
            for part, (lo, hi) in zip(parts, bounds):
                bench.use(f'G{lo} at the end', part.ser, lo, hi, cd.bo)
        if cd.final:
            for part in parts + [total]:
                if part.hi == n:
                    after = rng.choice(parts).ser
                    reject(case, lambda: part.ser + after, 'something added to a final serializer')
                    reject(case, lambda: part.ser + (after + part.ser), 'something added to a final serializer')
    finally:
        env.unload()


# --------------------------------------------------- their own constructors


class Maker:
    """Serializers of the nodes of a class, by their documented constructors."""

    def __init__(self, env, rng, bo_name):
        self.env, self.rng = env, rng
        self.order = ORDERS[bo_name]
        self.made = []

    def struct(self, fmt, actions=None):
        rng = self.rng
        args = (self.order,)
        if self.order is ByteOrder.DEFAULT and rng.random() < 0.5:
            args = ()
        if actions is None:
            return StructSerializer(fmt, *args)
        if args and rng.random() < 0.5:
            return StructActionSerializer(fmt, *args, actions)
        return StructActionSerializer(fmt, *args, actions=actions)

    def make(self, node):
        ser = getattr(self, f'make_{type(node).__name__}')(node)
        if isinstance(ser, StructSerializer):
            return ser
        self.made.append(type(ser).__name__)
        return ser

    def make_Basic(self, node):
        return self.struct(node.fmt)

    make_CharN = make_Pascal = make_Pad = make_Basic

    def make_SerAs(self, node):
        cls = self.env.name(node.cls_name)
        how = cls.make if node.factory is True else cls.factory(node.factory) if node.factory else cls
        return self.struct(node.fmt, (how,))

    def size(self, *names):
        return self.struct(''.join(SIZE_TYPES[n] for n in names if not isinstance(n, int) and n is not None))

    def make_DynChar(self, node):
        return serializers.DynamicCharSerializer(self.size(node.size))

    def make_NetChar(self, node):
        return serializers.NETCharSerializer()

    def make_TermChar(self, node):
        return serializers.TerminatedCharSerializer(node.term)

    def make_ConsumeChar(self, node):
        return serializers.ConsumingCharSerializer()

    def make_Uni(self, node):
        if node.encoding.startswith('Codec'):
            codec = self.env.name(node.encoding)
            how = codec.encode, codec.decode
        else:
            name = node.encoding
            how = (lambda s: s.encode(name)), (lambda b: b.decode(name))
        if isinstance(node.base, CharN):
            base = self.struct(node.base.fmt)
        else:
            base = self.make(node.base)
        return serializers.UnicodeSerializer(base, *how)

    def make_Tup(self, node):
        parts = [self.make(n) for n in node.items]
        return serializers.TupleSerializer(self.rng.choice((list, tuple, iter))(parts))

    def make_Arr(self, node):
        rng = self.rng
        item = self.make(node.item)
        static = isinstance(node.count, int)
        if isinstance(item, StructSerializer) and node.size is None and rng.random() < 0.7:
            if static:
                return serializers.StaticStructArraySerializer(node.count, item)
            return serializers.DynamicStructArraySerializer(self.size(node.count), item)
        if static:
            header = NullSerializer() if node.size is None else self.size(node.size)
            return serializers.ArraySerializer(header, item, node.count)
        header = self.size(node.count, node.size)
        if rng.random() < 0.5:
            return serializers.ArraySerializer(header, item)
        return serializers.ArraySerializer(header, item, static_length=-1)

    def make_Nest(self, node):
        return serializers.StructuredSerializer(self.env.cls(node.cd))

    def pred(self, pred):
        return eval(f'lambda o: {pred.expr}', {'len': len})

    def make_Cond(self, node):
        default = (self.env.const_value(node),) if node.nvals else ()
        return serializers.ConditionalSerializer(self.make(node.item), self.pred(node.pred), default)

    def union(self, node):
        args = {k: self.make(n) for k, n in node.result_map.items()},
        if node.default is not None or self.rng.random() < 0.5:
            args += (None if node.default is None else self.make(node.default)),
        return args

    def make_UnionLB(self, node):
        return serializers.LookbackDecider(self.pred(node.pred), *self.union(node))

    def make_UnionLA(self, node):
        return serializers.LookaheadDecider(self.make(node.ahead), self.pred(node.pred), *self.union(node))

    def make_Custom(self, node):
        cls = self.env.name(node.flavour)
        ser = cls() if node.arg is None else cls(node.arg)
        return ser.with_byte_order(self.order)


def constructed_case(case):
    rng = case.rng
    cd = schema(case, Profile(self=0, raw=0, styles=0, max_fields=5, depth=3, custom=4, array=18,
                              cond=12, lookback=8, lookahead=6, tuple=14, net=5, uni=12, seras=8))
    cd = ClassDef(cd.name, [(n, nd) for n, nd in cd.body if isinstance(nd, Node)], cd.bo_name)
    gen.finish(cd)
    env = load(case, [cd])
    env.hooks.log = None
    try:
        maker = Maker(env, rng, cd.bo_name)
        parts = [Part(maker.make(nd), i, i + 1) for i, (_, nd) in enumerate(cd.fields)]
        n = len(parts)
        if not n:
            return
        total, text = bracket(rng, parts, 'M')
        sums = [(text, total.ser)]
        if n > 1:
            sums.append(('compound', serializers.CompoundSerializer(tuple(p.ser for p in parts))))
        if any(isinstance(p.ser, StructSerializer) for p in parts) or rng.random() < 0.5:
            # Consecutive structs are aligned as one
            del sums[1:]
        for name in maker.made:
            case.stats.hit(name)
        case.stats.case((cd.sig(), text), {'schema': short(cd.sig(), 200), 'sum': text})
        bo2 = rng.choice(BO_NAMES)
        for _ in range(2):
            drawn = draw(case, cd)
            if drawn is None:
                return
            bench = Bench(case, env, cd, drawn[0])
            for text, ser in sums:
                bench.use(text, ser, 0, n, cd.bo)
            for part in parts:
                bench.use(f'M{part.lo}', part.ser, part.lo, part.hi, cd.bo)
                try:
                    bench.use(f'M{part.lo}.with_byte_order({bo2})', part.ser.with_byte_order(ORDERS[bo2]),
                              part.lo, part.hi, BYTE_ORDERS[bo2])
                except RefError:
                    pass
                bench.use(f'M{part.lo} after with_byte_order()', part.ser, part.lo, part.hi, cd.bo)
            try:
                bench.use(f'{text}.with_byte_order({bo2})', sums[0][1].with_byte_order(ORDERS[bo2]), 0, n,
                          BYTE_ORDERS[bo2])
            except RefError:
                pass
        null = NullSerializer()
        data = bytes(rng.randrange(3))
        use_packing(case, 'NullSerializer()', null, (), b'', None)
        use_unpacking(case, 'NullSerializer()', null, b'', None, lambda what, out: None, False)
        for ser in (null, rng.choice(parts).ser, total.ser):
            for other in rng.sample((1, None, 'B', b'', (), [], int, object()), 2):
                reject(case, lambda: ser + other, f'{other!r} added to a serializer')
                if not isinstance(other, (bytes, tuple, list)):
                    reject(case, lambda: other + ser, f'a serializer added to {other!r}')
    finally:
        env.unload()


# ------------------------------------------------------------------- structs

CODES = 'xcbB?hHiIlLqQefdsp'


class Term:
    """A struct serializer, its format (without byte order), and its actions."""

    def __init__(self, ser, fmt, acts, text):
        self.ser, self.fmt, self.acts, self.text = ser, fmt, acts, text


def tag(n):
    def action(x):
        return (n, x)
    action.n = n
    return action


def count_values(fmt):
    n, digits = 0, ''
    for c in fmt:
        if c.isdigit():
            digits += c
        else:
            n += 0 if c == 'x' else 1 if c in 'sp' else int(digits or 1)
            digits = ''
    return n


def random_format(rng, bo, simple=False):
    codes = CODES + ('nN' if bo in ('', '@') else '')
    out = ''
    for _ in range(1 if simple else rng.choice((0, 1, 1, 2, 2, 3, 4))):
        c = rng.choice(codes)
        n = rng.choice(('', '', '', '1', '2', '3', '10') + (() if c == 'p' else ('0',)))
        out += n + c
    return out


def random_term(rng, bo_name):
    fmt = random_format(rng, BYTE_ORDERS[bo_name], rng.random() < 0.3)
    n = count_values(fmt)
    if rng.random() < 0.5:
        return Term(StructSerializer(fmt, ORDERS[bo_name]), fmt, (None,) * n, repr(fmt))
    given = rng.randint(0, n)
    acts = tuple(tag(rng.randrange(1000)) for _ in range(given))
    ser = StructActionSerializer(fmt, ORDERS[bo_name], acts)
    return Term(ser, fmt, acts + (None,) * (n - given), f'{fmt!r}[{",".join(str(a.n) for a in acts)}]')


def single(fmt):
    return len(fmt) > 0 and fmt[-1] in 'spx' and (fmt[:-1] or '1').isdigit()


def program(rng, bo_name, depth):
    r = rng.random()
    if depth == 0 or r < 0.15:
        return random_term(rng, bo_name)
    if r < 0.65:
        a, b = program(rng, bo_name, depth - 1), program(rng, bo_name, depth - 1)
        return Term(a.ser + b.ser, a.fmt + b.fmt, a.acts + b.acts, f'({a.text} + {b.text})')
    if r < 0.85:
        a = program(rng, bo_name, depth - 1)
        n = rng.choice((1, 2, 2, 3, 4))
        return Term(a.ser * n, a.fmt * n, a.acts * n, f'({a.text} * {n})')
    if r < 0.93:
        other = rng.choice(BO_NAMES)
        if BYTE_ORDERS[other] not in ('', '@'):
            a = program(rng, bo_name, depth - 1)
            if 'n' in a.fmt.lower():
                return a
            moved = a.ser.with_byte_order(ORDERS[other])
            return Term(moved.with_byte_order(ORDERS[bo_name]), a.fmt, a.acts, f'{a.text}<{other}>')
    base = rng.choice('sp')
    n, m = rng.choice((1, 2, 5)), rng.choice((1, 2, 3, 20))
    if rng.random() < 0.5:
        ser, acts = StructSerializer(f'{n}{base}', ORDERS[bo_name]), (None,)
    else:
        acts = (tag(rng.randrange(1000)),)
        ser = StructActionSerializer(f'{n}{base}', ORDERS[bo_name], acts)
    return Term(ser @ m, f'{n * m}{base}', acts, f'({n}{base}{[a.n for a in acts if a]} @ {m})')


def random_values(rng, bo, fmt):
    """By unpacking random data."""
    data = bytes(rng.randrange(256) for _ in range(struct.calcsize(bo + fmt)))
    return struct.unpack(bo + fmt, data)


def check_struct(case, text, ser, bo, fmt, acts, vals):
    want_st = struct.Struct(bo + fmt)
    if ser.num_values != len(acts):
        raise Violation(f'{text}: num_values is {ser.num_values} instead of {len(acts)}')
    if ser.size != want_st.size:
        raise Violation(f'{text}: size is {ser.size} instead of {want_st.size} ({ser.format} / {bo}{fmt})')
    ref = want_st.pack(*vals)
    use_packing(case, text, ser, vals, ref, None)
    decoded = want_st.unpack(ref)
    want = tuple(v if a is None else a(v) for a, v in zip(acts, decoded))

    def check(what, out):
        if not same_all(out, want):
            raise Violation(f'{what} gave {short(out)}, expected {short(want)}')

    use_unpacking(case, text, ser, ref, None, check, False)


def equality(case, a, b, bo_name):
    """Serializers which are equal do the same."""
    rng = case.rng
    args = a.ser.base_format, ORDERS[bo_name]
    actions = tuple(getattr(a.ser, 'actions', ()))
    kind = StructActionSerializer if hasattr(a.ser, 'actions') else StructSerializer
    args += (actions,) if hasattr(a.ser, 'actions') else ()
    twin = kind(*args)
    if not a.ser == twin or not twin == a.ser or a.ser != twin or hash(a.ser) != hash(twin):
        raise Violation(f'serializers of the same format and actions are not equal: {a.ser} {twin}')
    if twin not in {a.ser: 1}:
        raise Violation(f'{twin} not found')
    base = a.ser.base_format
    others = [(StructSerializer(base + 'b', ORDERS[bo_name]), 'another format')]
    for bo in BO_NAMES:
        if BYTE_ORDERS[bo] in ('', '@') or 'n' not in base.lower():
            if BYTE_ORDERS[bo] != BYTE_ORDERS[bo_name]:
                others.append((kind(base, ORDERS[bo], *args[2:]), 'another byte order'))
    if actions:
        changed = list(actions)
        changed[rng.randrange(len(changed))] = tag(-1)
        others.append((StructActionSerializer(base, ORDERS[bo_name], tuple(changed)), 'another action'))
        others.append((StructSerializer(base, ORDERS[bo_name]), 'no actions'))
    elif a.acts and kind is StructSerializer:
        others.append((StructActionSerializer(base, ORDERS[bo_name], (tag(1),)), 'actions'))
    others += [(x, 'no serializer') for x in (base, None, struct.Struct(base))]
    for other, what in others:
        if a.ser == other or other == a.ser or not a.ser != other:
            raise Violation(f'{a.ser} equals {other}: {what}')
    if a.ser == b.ser and (struct.calcsize(a.fmt) != struct.calcsize(b.fmt) or a.acts != b.acts):
        raise Violation(f'{a.text} equals {b.text}')
    case.stats.hit('comparisons', len(others) + 2)


def struct_case(case):
    rng = case.rng
    bo_name = rng.choice(BO_NAMES)
    bo = BYTE_ORDERS[bo_name]
    a = program(rng, bo_name, rng.choice((1, 2, 2, 3)))
    if len(a.acts) > 300 or len(a.fmt) > 900:
        return
    b = program(rng, bo_name, 1)
    case.context = f'{bo_name}: a = {a.text}, b = {b.text}'
    case.stats.case((bo_name, a.text, b.text), {'byte order': bo_name, 'program': short(a.text)})
    va, vb = random_values(rng, bo, a.fmt), random_values(rng, bo, b.fmt)
    check_struct(case, a.text, a.ser, bo, a.fmt, a.acts, va)
    total = a.ser + b.ser
    if struct.calcsize(bo + a.fmt) == 0 and struct.calcsize(bo + b.fmt) == 0:
        case.stats.hit('empty structs')
    vals = random_values(rng, bo, a.fmt + b.fmt)
    check_struct(case, 'a + b', total, bo, a.fmt + b.fmt, a.acts + b.acts, vals)
    check_struct(case, 'a afterwards', a.ser, bo, a.fmt, a.acts, va)
    check_struct(case, 'b afterwards', b.ser, bo, b.fmt, b.acts, vb)
    equality(case, a, b, bo_name)
    none = a.ser * 0
    check_struct(case, 'a * 0', none, bo, '', (), ())
    check_struct(case, 'a * 0 + b', none + b.ser, bo, b.fmt, b.acts, vb)
    check_struct(case, 'b + a * 0', b.ser + none, bo, b.fmt, b.acts, vb)
    for count in rng.sample((-1, -7, 1.0, 2.5, '2', None, (2,), b'2'), 2):
        reject(case, lambda: a.ser * count, f'a * {count!r}')
        reject(case, lambda: a.ser @ count, f'a @ {count!r}')
    other = rng.choice(BO_NAMES)
    bo2 = BYTE_ORDERS[other]
    if 'n' not in (a.fmt + b.fmt).lower() or bo2 in ('', '@'):
        moved = total.with_byte_order(ORDERS[other])
        vals2 = random_values(rng, bo2, a.fmt + b.fmt)
        check_struct(case, f'(a + b).with_byte_order({other})', moved, bo2, a.fmt + b.fmt,
                     a.acts + b.acts, vals2)
        check_struct(case, 'a + b afterwards', total, bo, a.fmt + b.fmt, a.acts + b.acts, vals)
        big = {'>': 1, '!': 1, '<': 0}
        if big.get(bo, 2) + big.get(bo2, 2) == 1:
            # Opposite byte orders can not be one struct
            moved_b = b.ser.with_byte_order(ORDERS[other])
            reject(case, lambda: a.ser + moved_b, 'struct serializers of different byte orders were joined')
            reject(case, lambda: moved_b + a.ser, 'struct serializers of different byte orders were joined')
    # Joining with something which is not a struct
    from structured.serializers import DynamicCharSerializer

    char = DynamicCharSerializer(StructSerializer('B', ORDERS[bo_name]))
    for text, parts in (('a + char + b', (a.ser, char, b.ser)), ('char + a + b', (char, a.ser, b.ser)),
                        ('a + b + char', (a.ser, b.ser, char))):
        joined = (parts[0] + parts[1]) + parts[2] if rng.random() < 0.5 else parts[0] + (parts[1] + parts[2])
        ref, vals, want, run, run_acts, run_vals = b'', [], [], '', [], []

        def flush():
            nonlocal ref, run, run_acts, run_vals
            st = struct.Struct(bo + run)
            v = random_values(rng, bo, run)
            data = st.pack(*v)
            ref += data
            vals.extend(v)
            want.extend(x if act is None else act(x) for act, x in zip(run_acts, st.unpack(data)))
            run, run_acts = '', []

        for p in parts:
            if p is char:
                flush()
                ref += b'\3abc'
                vals.append(b'abc')
                want.append(b'abc')
            else:
                t = a if p is a.ser else b
                run += t.fmt
                run_acts += t.acts
        flush()

        def check(what, out):
            if not same_all(out, want):
                raise Violation(f'{what} gave {short(out)}, expected {short(want)}')

        use_packing(case, text, joined, vals, ref, None)
        use_unpacking(case, text, joined, ref, None, check, False)


# --------------------------------------------------------- user written ones

def probe_case(case):
    rng = case.rng
    cd = schema(case, Profile(max_fields=6, depth=3, probes=0.7, custom=45, lookahead=3, cond=10,
                              lookback=8, array=14, tuple=12, self=4, raw=0.05))
    nodes = [s for c in cd.classes().values() for _, nd in c.fields for s in build.walk_local(nd)]
    n = sum(isinstance(s, Custom) and s.flavour == 'Probe' for s in nodes)
    if not n:
        return
    env = load(case, cd)
    H = env.hooks
    try:
        cls = env.cls(cd)
        for _ in range(3):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            o = env.obj(rec)
            Custom.uses = want, _ = [], env.freeze
            try:
                cd.enc(rec)
            finally:
                Custom.uses = None
            for route, fn in (
                ('pack', o.pack), ('pack_into', lambda: o.pack_into(bytearray(len(data) + 3), 1)),
                ('pack_write', lambda: o.pack_write(io.BytesIO())),
            ):
                judge(case, H, route, fn, want)
            Custom.uses = want, _ = [], env.freeze
            try:
                used = cd.decode(data)[1]
            except RefError:
                continue
            finally:
                Custom.uses = None
            extra = b'' if cd.final else b'\x99' * rng.choice((0, 3))
            old = env.obj(rec)
            for route, fn in (
                ('create_unpack', lambda: cls.create_unpack(data + extra)),
                ('create_unpack_from', lambda: cls.create_unpack_from(b'12' + data + extra, 2)),
                ('create_unpack_read', lambda: cls.create_unpack_read(io.BytesIO(data + extra))),
                ('unpack', lambda: old.unpack(data + extra)),
                ('unpack_from', lambda: old.unpack_from(b'1' + data + extra, 1)),
                ('unpack_read', lambda: old.unpack_read(io.BytesIO(data + extra))),
            ):
                judge(case, H, route, fn, want)
    finally:
        env.unload()


def judge(case, H, route, fn, want):
    """The probes were prepared for each of their uses with the object and its
    members so far."""
    for p in H.probes:
        p.ready = None
    del H.uses[:]
    fn()
    got = list(H.uses)
    case.stats.hit('uses of user written serializers', len(got))
    if got == want:
        return
    for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
        if g != w:
            raise Violation(f'{route}(): use {i} of a user written serializer (number, operation, prepared)'
                            f'\n    got  {short(g, 500)}\n    want {short(w, 500)}')


KINDS = {
    'sums': Kind(sum_case, 1500, 30000),
    'constructed': Kind(constructed_case, 1500, 30000),
    'structs': Kind(struct_case, 5000, 100000),
    'probes': Kind(probe_case, 2500, 40000),
}
