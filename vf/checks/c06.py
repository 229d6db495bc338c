"""Byte order."""

from .common import *

ID = 'C06'
QUICK = 2
RULE = (
    'Random schemas and pairs of hint kinds in each byte order; objects switched to each other '
    'byte order with with_byte_order (of the object, and of the serializer), then packed and '
    'unpacked. Oracle: the reference codec with the byte order in question for everything but '
    'nested Structured objects, which keep their own. Monitors: the original object, class and '
    'serializer keep packing as before; pools of objects in different orders, changed and used at '
    'random. Distinct: schema signature, order and packed bytes.'
)


def switched(case, cd, values=1):
    """with_byte_order"""
    env = load(case, cd)
    b = battery(case, env)
    import structured

    rng = case.rng
    try:
        cls = env.cls(cd)
        for name in {cd.bo_name}:
            if cls.byte_order is not getattr(structured.ByteOrder, name):
                b.fail('byte_order of the class', got=cls.byte_order, want=name)
        for _ in range(values):
            drawn = draw(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            o = env.obj(rec)
            for name in rng.sample(BO_NAMES, 3):
                order = getattr(structured.ByteOrder, name)
                bo = BYTE_ORDERS[name]
                try:
                    ref = cd.enc(rec, bo)
                    want, used = cd.decode(ref, 0, bo)
                    plain = cd.decode(data)[0]
                except RefError:
                    continue
                case.stats.case((cd.sig(), name, ref), {'order': name, 'value': short(rec, 150),
                                                        'packed': short(ref, 100)})
                new = o.with_byte_order(order)
                if type(new) is not cls:
                    b.fail('with_byte_order() returned another type', got=type(new))
                if new.byte_order is not order:
                    b.fail('byte_order of the object', got=new.byte_order, want=order)
                if not same(b.model(new, cd, 'with_byte_order()'), rec):
                    b.fail('with_byte_order() changed values', got=new, want=rec)
                if o == o and (new != o or not o == new):
                    b.fail('with_byte_order() gives an object which is not equal', got=new, want=o)
                outs = {'pack': new.pack()}
                stream = io.BytesIO()
                new.pack_write(stream)
                outs['pack_write'] = stream.getvalue()
                buffer = bytearray(len(ref) + 3)
                new.pack_into(buffer, 2)
                outs['pack_into'] = bytes(buffer[2:-1])
                for route, out in outs.items():
                    if out != ref:
                        b.fail(f'{route}() of an object switched to {name}', got=out, want=ref,
                               value=rec)
                if new.serializer.size != len(ref):
                    b.fail('size of the switched serializer', got=new.serializer.size, want=len(ref))
                for route in ('unpack', 'unpack_from', 'unpack_read'):
                    new = o.with_byte_order(order)
                    if order is cls.byte_order:
                        new = env.obj(rec)
                    x = b.read_with(cls, route, ref, target=new)
                    got = b.model(x, cd, f'{route} in {name}')
                    case.stats.hit('switched_unpacks')
                    if not same(got, want):
                        b.fail(f'{route}() into an object switched to {name}', got=got, want=want,
                               data=ref)
                # The original is what it was
                if o.byte_order is not cls.byte_order:
                    b.fail('with_byte_order() changed the byte order of the original')
                out = o.pack()
                if out != data:
                    b.fail('with_byte_order() changed how the original packs', got=out, want=data)
                x = cls.create_unpack(data)
                if not same(b.model(x, cd, 'create_unpack'), plain):
                    b.fail('with_byte_order() changed how the class unpacks', data=data)
                # And back
                back = o.with_byte_order(order).with_byte_order(cls.byte_order)
                if back.pack() != data:
                    b.fail('with_byte_order() there and back', got=back.pack(), want=data)
    finally:
        env.unload()


def family(case):
    """A pool of objects of one class, each in its own byte order, made from each
    other by with_byte_order, changed, packed and unpacked into at random."""
    import structured

    rng = case.rng
    profile = Profile(styles=0.0, max_fields=4, **WIDE)
    cd = SchemaGen(rng, profile).root()
    env = load(case, cd)
    b = battery(case, env)
    cls = env.cls(cd)
    orders = {n: getattr(structured.ByteOrder, n) for n in BO_NAMES}
    try:
        drawn = draw(case, cd)
        if drawn is None:
            return
        pool = [[env.obj(drawn[0]), cd.bo_name, drawn[0]]]
        for _ in range(14):
            entry = rng.choice(pool)
            o, name, rec = entry
            op = rng.choice(('switch', 'switch', 'set', 'pack', 'pack', 'unpack', 'new'))
            if op == 'switch':
                to = rng.choice(BO_NAMES)
                new = o.with_byte_order(orders[to])
                if type(new) is not cls or new.byte_order is not orders[to]:
                    b.fail('with_byte_order()', got=(type(new), new.byte_order), want=to)
                if o == o and not (o == new and new == o):
                    b.fail('with_byte_order() gives an object which is not equal', got=new, want=o)
                if not any(new is x for x, _, _ in pool):
                    pool.append([new, to, rec])
                elif not new is o:
                    b.fail('with_byte_order() returned another object known before')
                if o.byte_order is not orders[name]:
                    b.fail('with_byte_order() changed the byte order of the original')
            elif op == 'set':
                drawn = draw(case, cd)
                if drawn is None:
                    continue
                # (values may be shared with the other objects: no change in place)
                entry[2] = drawn[0]
                for n, v in zip([n for n, _ in cd.named()], env.values(drawn[0])):
                    setattr(o, n, v)
            elif op == 'unpack':
                drawn = draw(case, cd)
                if drawn is None:
                    continue
                bo = BYTE_ORDERS[name]
                try:
                    ref = cd.enc(drawn[0], bo)
                    want, used = cd.decode(ref, 0, bo)
                    cd.enc(want, bo)
                except RefError:
                    continue
                route = rng.choice(('unpack', 'unpack_from', 'unpack_read'))
                b.read_with(cls, route, ref, target=o)
                if not same(b.model(o, cd, route), want):
                    b.fail(f'{route}() into an object switched to {name}', got=o, want=want)
                if o.serializer.size != used:
                    b.fail('size after unpacking', got=o.serializer.size, want=used)
                entry[2] = want
            elif op == 'new':
                ok, data = attempt(lambda: cd.enc(rec))
                if not ok:
                    continue
                try:
                    want, used = cd.decode(data)
                except RefError:
                    continue
                if not same(b.model(cls.create_unpack(data), cd, 'new'), want):
                    b.fail('create_unpack() next to objects of other orders', want=want)
                if cls.byte_order is not orders[cd.bo_name]:
                    b.fail('the byte order of the class changed')
            for o, name, rec in pool if op != 'pack' else [entry]:
                ok, ref = attempt(lambda: cd.enc(rec, BYTE_ORDERS[name]))
                if not ok:
                    continue
                route = rng.choice(('pack', 'pack_into', 'pack_write'))
                out = b.pack_bytes(o, route, ref)
                if out != ref:
                    b.fail(f'{route}() of an object in {name} after {op}', got=out, want=ref,
                           value=rec, pool=[n for _, n, _ in pool])
                # (an mmap cannot be empty, so nothing is packed then)
                if ref and o.serializer.size != len(ref):
                    b.fail('size after packing', got=o.serializer.size, want=len(ref))
                case.stats.case((cd.sig(), name, ref))
                case.stats.hit('pool_packs')
    finally:
        env.unload()


def switch_random(case):
    profile = Profile(styles=0.0)
    cd = SchemaGen(case.rng, profile).class_def()
    switched(case, cd, 2)


PAIRS = [(a, b) for a in LEAFS for b in LEAFS]


def switch_pair(case):
    a, c = PAIRS[case.index * 37 % len(PAIRS)]
    cd = simple_class('Pair', [('lead', Basic('uint8')), ('a', a()), ('b', c())],
                      case.rng.choice(BO_NAMES))
    switched(case, cd)


def same_twice(case):
    """The same hints in classes with different byte orders, used in turn."""
    rng = case.rng
    gen_ = SchemaGen(rng, Profile(max_fields=4, styles=0.0, self=0))
    first = gen_.class_def()
    cds = [first]
    for i, bo in enumerate(rng.sample(BO_NAMES, 3)):
        cd = ClassDef(f'Twin{i}', first.body, bo)
        gen.finish(cd)
        cds.append(cd)
    env = load(case, cds)
    b = battery(case, env)
    try:
        rounds = []
        for cd in cds:
            drawn = draw(case, cd)
            if drawn is not None:
                rounds.append((cd, *drawn))
        for _ in range(2):
            rng.shuffle(rounds)
            for cd, rec, data in rounds:
                note(case, cd, rec, data)
                b.packing(rec)
                b.unpacking(cd, data)
    finally:
        env.unload()


WIDE = dict(basic=30, tuple=15, array=15, lookback=8, cond=8, uni=12, dynchar=12, lookahead=4)

KINDS = {
    'random': random_kind(Profile(**WIDE), 1500, 60000, values=2, mutate=0),
    'pairs': pair_kind(LEAFS, LEAFS, values=1, mutate=0, truncate=0),
    'switch': Kind(switch_random, 1500, 60000),
    'switch_pairs': Kind(switch_pair, len(PAIRS), len(PAIRS) * 12),
    'family': Kind(family, 600, 25000),
    'twins': Kind(same_twice, 600, 20000),
    'derived': random_kind(Profile(inherit=1.0), 700, 30000, values=1, mutate=0),
}
