"""Values without an encoding."""

from .common import *

ID = 'C20'
QUICK = 2
RULE = (
    'In valid objects of each kind of hint and of random classes, one value anywhere (members, items '
    'of tuples and arrays, outcomes of unions, guarded and nested members) is replaced by one its '
    'type can not represent: out of range by one or by far, of another type, too long for its '
    'length field, the wrong number of items, not encodable, or missing. Each packing route has to '
    'raise, leaving the bytes before the offset, the size of the buffer and the other members '
    'alone; then the same object with the proper value has to pack to the proper bytes. Distinct: '
    'schema signature, place and bad value.'
)


class Opaque:
    def __repr__(self):
        return '<opaque>'


NOTHING = Opaque()
WRONG = (None, 'x', 'text', NOTHING, 1 + 2j, {}, {1: 2}, set())


def bad_values(rng, node, v, o):
    """Values which no bytes stand for, as (description, model value)."""
    if isinstance(node, SerAs):
        # A custom object around a bad value
        if isinstance(node.base, Basic) and node.base.typ is bool:
            return
        for what, x in bad_values(rng, node.base, v, o):
            if type(x) is node.base.__dict__.get('typ', bytes) if isinstance(node.base, Basic) else False:
                yield 'custom ' + what, x
            elif x is None or x is NOTHING or isinstance(x, (str, complex)):
                yield what, x
    elif isinstance(node, Basic):
        if node.typ is bool:
            return
        if node.typ is int:
            lo, hi = gen.INT_RANGE[node.name]
            yield from (('below the range', lo - 1), ('above the range', hi + 1),
                        ('far below', lo * 4 - 9), ('far above', hi * 256), ('huge', 1 << 200),
                        ('-huge', -1 << 200), ('float', 1.0), ('float', 0.5), ('bytes', b'\1'),
                        ('list', [1]), ('tuple', (1,)))
        else:
            top = {'float16': 65520.0, 'float32': 3.5e38}.get(node.name)
            if node.name == 'float32' and o.cd.bo in ('', '@'):
                top = None  # the struct module rounds to infinity here
            if top:
                yield from (('above the range', top), ('below the range', -top), ('far', 1e300))
            yield from (('huge', 1 << 2000), ('bytes', b'1.0'), ('list', [1.0]))
        for x in WRONG:
            yield 'type', x
    elif isinstance(node, (CharN, Pascal)):
        yield from (('int', 5), ('ints', [1, 2]), ('tuple', (b'a',)), ('float', 1.5))
        for x in WRONG:
            yield 'type', x
    elif isinstance(node, (DynChar, NetChar, TermChar, ConsumeChar)):
        yield from (('int', 5), ('ints', [1, 2]), ('tuple', (b'a',)), ('float', 1.5), ('empty', []),
                    ('empty tuple', ()))
        for x in WRONG:
            yield 'type', x
        limit = {'uint8': 255, 'uint16': 65535}.get(getattr(node, 'size', None))
        if isinstance(node, NetChar):
            limit = 0x7FFF
        if limit:
            yield 'too long by one', bytes(limit + 1)
            yield 'too long', b'ab' * limit
            yield 'much too long', b'\xff' * (70000 + rng.randrange(9))
    elif isinstance(node, Uni):
        yield from (('bytes', b'abc'), ('int', 5), ('float', 1.5), ('strs', ['a']), ('empty', []),
                    ('None', None), ('opaque', NOTHING), ('dict', {}), ('no bytes', b''))
        yield 'surrogate', 'a\ud800'
        for x in ('é', '漢', '😀', 'a\u0100', '\x81', '\uffff'):
            try:
                node.encode(x)
            except RefError:
                yield 'not encodable', x
                yield 'not encodable', 'abc' + x + 'abc'
        base = node.base
        limit = {'uint8': 255, 'uint16': 65535}.get(getattr(base, 'size', None))
        if isinstance(base, NetChar):
            limit = 0x7FFF
        if limit:
            # Lengths count bytes
            char = 'a'
            for wide in ('é', '漢'):
                try:
                    node.encode(wide)
                    char = rng.choice((char, wide))
                except RefError:
                    pass
            n = 1
            while len(node.encode(char * n)) <= limit:
                n = n * 2
            lo, hi = n // 2, n
            while hi - lo > 1:
                mid = (lo + hi) // 2
                lo, hi = (mid, hi) if len(node.encode(char * mid)) <= limit else (lo, mid)
            yield 'too long by one', char * hi
            yield 'too long', char * (limit + 1)
    elif isinstance(node, Tup):
        yield from (('too long', v + (1,)), ('too long by its own', v + v[:1] if v else (0,)),
                    ('int', 5), ('None', None), ('opaque', NOTHING), ('float', 1.5))
        if v:
            yield from (('too short', v[:-1]), ('too short', v[1:]), ('empty', ()))
        yield 'nested', (v, v) if len(v) == 1 else (v,)
    elif isinstance(node, Arr):
        yield from (('int', 5), ('None', None), ('opaque', NOTHING), ('float', 1.5))
        if isinstance(node.count, int):
            if v:
                yield from (('too short', v[:-1]), ('empty', []), ('too long', v + v[-1:]), ('twice', v + v))
            else:
                try:
                    yield 'too long', [ValueGen(rng).value(node.item, o)]
                except (Skip, RefError):
                    pass
        elif node.count == 'uint8' and v:
            yield 'one item too many', (v * 256)[:256]
            yield 'too many items', v * 300
        elif node.count == 'uint16' and v and isinstance(node.item, Basic):
            yield 'one item too many', v[:1] * 65536
        if node.size in ('uint8', 'uint16') and v and not isinstance(node.count, int):
            one = node.item.enc(v[0], o.cd.bo, o)
            limit = SIZE_MAX[node.size]
            n = limit // len(one) + 3 if one else 0
            if n and n <= SIZE_MAX[node.count]:
                yield 'too much data', v[:1] * n
    elif isinstance(node, (Nest, SelfRef)):
        yield from (('int', 5), ('None', None), ('opaque', NOTHING), ('bytes', b'abc'), ('str', 'x'),
                    ('tuple', ()), ('list', []), ('float', 1.5))
    elif isinstance(node, Custom):
        if node.flavour in ('OrderMark', 'Rest'):
            yield from (('int', 5), ('None', None), ('str', 'x'))
        else:
            yield from (('negative', -1), ('None', None), ('str', 'x'), ('float', 1.5))
        if node.flavour == 'XorByte':
            yield 'too big', 256


def sites(node, v, o, path, put):
    """Every place in a value: (path, node, value, object, how to replace it)."""
    if isinstance(node, Cond):
        if node.pred(o):
            yield from sites(node.item, v, o, path, put)
        return
    if isinstance(node, UnionLA):
        for p, n, x, o2, f in sites_in(v, path):
            yield p, n, x, o2, lambda y, f=f: put(f(y))
        return
    if isinstance(node, UnionLB):
        yield from sites(node.choose(node.pred(o)), v, o, path, put)
        return
    yield path, node, v, o, put
    if isinstance(node, Tup):
        for i, (sub, x) in enumerate(zip([n for n in node.items if n.nvals], v)):
            yield from sites(sub, x, o, f'{path}[{i}]',
                             lambda y, i=i: put(v[:i] + (y,) + v[i + 1:]))
    elif isinstance(node, Arr):
        for i, x in enumerate(v[:6]):
            yield from sites(node.item, x, o, f'{path}[{i}]',
                             lambda y, i=i: put(v[:i] + [y] + v[i + 1:]))
    elif isinstance(node, (Nest, SelfRef)):
        if isinstance(v, Rec):
            for p, n, x, o2, f in sites_in(v, path):
                yield p, n, x, o2, lambda y, f=f: put(f(y))


def sites_in(rec, path):
    for name, node in rec.cd.named():
        yield from sites(node, rec.vals[name], rec, f'{path}.{name}',
                         lambda y, name=name: Rec(rec.cd, {**rec.vals, name: y}))


def refused(case, env, rec, data, path, bad, what):
    """Objects with a bad value are refused by each route, and then as good as new."""
    cd = rec.cd
    good = env.values(rec)
    o = env.obj(rec)
    top = path.split('.')[1].split('[')[0]
    setattr(o, top, env.values(bad)[cd.attrs.index(top)])
    routes = ['pack', 'pack_into', 'pack_write']
    case.rng.shuffle(routes)
    before = {n: getattr(o, n) for n in cd.attrs}
    for route in routes:
        buffer = bytearray(b'\xa5') * (len(data) + 80000)
        size = len(buffer)
        if route == 'pack':
            ok, out = attempt(o.pack)
        elif route == 'pack_into':
            ok, out = attempt(lambda: o.pack_into(buffer, 3))
            if len(buffer) != size or buffer[:3] != b'\xa5\xa5\xa5':
                raise Violation('failed pack_into() changed the buffer where it should not')
        else:
            stream = io.BytesIO()
            ok, out = attempt(lambda: o.pack_write(stream))
            if ok:
                out = stream.getvalue()
        if isinstance(out, Violation):
            raise out
        if ok:
            raise Violation(f'{route}() packed an unrepresentable value ({what}) at {path}'
                            f'\n    object  {short(bad, 600)}\n    packed  {short(out)}')
        if not isinstance(out, Exception):
            raise Violation(f'{route}() raised {out!r}')
        case.stats.hit('refused ' + route)
        for n in cd.attrs:
            if getattr(o, n) is not before[n]:
                raise Violation(f'failed {route}() changed the member {n}')
    # The same object, repaired
    setattr(o, top, good[cd.attrs.index(top)])
    buffer = bytearray(len(data))
    o.pack_into(buffer)
    stream = io.BytesIO()
    o.pack_write(stream)
    for route, out in (('pack', o.pack()), ('pack_into', bytes(buffer)), ('pack_write', stream.getvalue())):
        if out != data:
            raise Violation(f'{route}() after refusing {what} at {path} packed {short(out)}, '
                            f'expected {short(data)}')
    case.stats.hit('repaired')


def spoil(case, cd, values=2, tries=6):
    rng = case.rng
    env = load(case, cd)
    try:
        for _ in range(values):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            places = list(sites_in(rec, cd.name))
            if not places:
                return
            for _ in range(tries):
                path, node, v, o, put = rng.choice(places)
                options = list(bad_values(rng, node, v, o))
                if not options:
                    continue
                what, x = rng.choice(options)
                case.stats.case((cd.sig(), path, what, repr(x)[:60]), {
                    'class': cd.name, 'place': path, 'hint': node.sig(), 'bad': f'{what}: {short(x, 80)}'
                })
                case.stats.hit(f'bad values of {node.kind}')
                refused(case, env, rec, data, path, put(x), what)
            if rng.random() < 0.3 and cd.attrs and cd.style == 'plain':
                name = rng.choice(cd.attrs)
                x = env.obj(rec)
                delattr(x, name)
                for fn in (x.pack, lambda: x.pack_into(bytearray(len(data) + 9)),
                           lambda: x.pack_write(io.BytesIO())):
                    reject(case, fn, f'packed an object without its member {name}')
    finally:
        env.unload()


EACH = list(LEAFS) + [
    lambda: DynChar('uint16'), lambda: Uni(DynChar('uint16'), 'utf-16'), lambda: Uni(DynChar('uint8'), 'ascii'),
    lambda: Uni(TermChar(), 'ascii'), lambda: Uni(NetChar(), 'utf8'), lambda: Uni(NetChar(), 'latin-1'),
    lambda: Uni(CharN(8), 'cp1252'), lambda: ConsumeChar(), lambda: Uni(ConsumeChar(), 'ascii'),
    lambda: Arr('uint8', None, Basic('uint8')), lambda: Arr('uint8', 'uint8', Basic('uint16')),
    lambda: Arr('uint16', 'uint8', CharN(2)), lambda: Arr('uint8', None, Tup((Basic('uint8'),))),
    lambda: Arr(2, None, DynChar('uint8')), lambda: Arr(0, None, Basic('uint8')), lambda: Arr(2, 'uint8', TermChar()),
    lambda: Arr('uint32', 'uint8', NetChar()), lambda: Tup((ConsumeChar(),)), lambda: Tup((Uni(DynChar('uint8')),)),
    lambda: SerAs(Basic('float16'), 0), lambda: SerAs(Basic('uint64'), 1, 2), lambda: SerAs(CharN(3), 0),
    lambda: Arr(3, None, SerAs(Basic('int8'), 0)), lambda: Arr(3, None, Pascal(3)),
]


def each_case(case):
    """Each bad value of each kind of hint, alone and amid others."""
    rng = case.rng
    i = case.index
    node = EACH[i % len(EACH)]()
    alone = i // len(EACH) % 3 == 0
    fields = [('m', node)]
    if not alone:
        fields.insert(0, ('lead', rng.choice(LEAFS)()))
        if not node.final:
            fields.append(('tail', rng.choice(LEAFS)()))
    cd = simple_class('Each', fields, BO_NAMES[i % len(BO_NAMES)])
    env = load(case, cd)
    try:
        drawn = draw(case, cd)
        if drawn is None:
            return
        rec, data = drawn
        for path, node, v, o, put in sites_in(rec, 'Each'):
            if not path.startswith('Each.m'):
                continue
            for what, x in bad_values(rng, node, v, o):
                if what.startswith('much') and rng.random() < 0.8:
                    continue
                case.stats.case((cd.sig(), path, what, repr(x)[:60]), None)
                case.stats.hit(f'bad values of {node.kind}')
                refused(case, env, rec, data, path, put(x), what)
    finally:
        env.unload()


def random_case(case):
    spoil(case, schema(case, Profile(max_fields=5, depth=3, raw=0.05, inherit=0.15)))


KINDS = {
    'each': Kind(each_case, len(EACH) * 18, len(EACH) * 180),
    'random': Kind(random_case, 6000, 100000),
}
