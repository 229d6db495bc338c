"""Tuples and nested composition."""

from .common import *

ID = 'C12'
QUICK = 1.5
RULE = (
    'Tuples and nested Structured objects in each other, in arrays, conditions and unions, down '
    'to depth 6; tuples of every pair of hint kinds; a member of each kind in up to 4 layers of '
    'tuples, arrays and objects; alignment within tuples and objects on their own; wrong numbers '
    'of tuple items; tuples of hundreds of items, and chains of up to 40 classes; random schemas. Distinct: schema signature and packed bytes.'
)


def tuple_pair(case):
    a = LEAFS[case.index % len(LEAFS)]()
    c = LEAFS[case.index // len(LEAFS) % len(LEAFS)]()
    rng = case.rng
    items = [a, c]
    if rng.random() < 0.3:
        items.insert(rng.randrange(3), Pad(rng.choice((1, 3))))
    if rng.random() < 0.3:
        items.append(ConsumeChar())
    node = Tup(items, old=rng.random() < 0.3)
    fields = [('lead', Basic('uint8')), ('t', node)]
    if not node.final:
        fields.append(('tail', Basic('uint32')))
    cd = simple_class('TupPair', fields, rng.choice(BO_NAMES))
    everything(case, cd, values=1, mutate=1, truncate=1)


def layers_case(case):
    """A member deep within layers of tuples, arrays and objects."""
    rng = case.rng
    node = LEAFS[case.index % len(LEAFS)]()
    for _ in range(rng.randint(1, 5)):
        kind = rng.randrange(5)
        if kind == 0:
            node = Tup((node,))
        elif kind == 1:
            node = Tup((Basic(rng.choice(('uint8', 'uint64'))), node, Basic('uint16')))
        elif kind == 2:
            node = Arr(rng.choice((1, 2, 'uint8', 'uint16')), rng.choice((None, None, 'uint32')), node)
        elif kind == 3:
            node = Nest(simple_class(fresh('Ly'), [('v', node)], rng.choice(BO_NAMES)))
        else:
            node = Nest(simple_class(fresh('Lz'), [
                ('h', Basic('uint8')), ('v', node), ('_', Pad(2)), ('w', Basic('int32')),
            ], rng.choice(BO_NAMES)))
    cd = simple_class('Layers', [('a', node), ('z', Basic('uint16'))], rng.choice(BO_NAMES))
    everything(case, cd, values=2, mutate=1, truncate=1)


def arity_case(case):
    """Tuples with too few or too many items."""
    rng = case.rng
    items = [rng.choice(LEAFS)() for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        items.append(Pad(1))
    node = Tup(items)
    wrap = rng.randrange(3)
    outer = node if wrap == 0 else Arr('uint8', None, node) if wrap == 1 else Tup((node, Basic('uint8')))
    cd = simple_class('Arity', [('t', outer), ('z', Basic('uint8'))], rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    try:
        good = ValueGen(rng).value(node, None)
        try:
            node.enc(good, cd.bo, None)
        except RefError:
            return
        for bad in (good[:-1], good + (0,), good + good[-1:], (), good + good, good[1:]):
            if len(bad) == len(good):
                continue
            v = bad if wrap == 0 else [good, bad] if wrap == 1 else (bad, 1)
            case.stats.case((cd.sig(), len(bad), len(good)), {'items': len(bad), 'of': len(good)})
            b.refused(Rec(cd, {'t': v, 'z': 1}), f'{len(bad)} items instead of {len(good)}')
    finally:
        env.unload()


SIZES = (50, 100, 127, 128, 200, 254, 255, 256, 257, 300, 512, 600)


def wide_case(case):
    """Tuples of hundreds of items."""
    rng = case.rng
    n = SIZES[case.index % len(SIZES)]
    mixed = rng.choice((0, 0.1, 0.5))
    items = [rng.choice(LEAFS)() if rng.random() < mixed else Basic(rng.choice(gen.BASICS)) for _ in range(n)]
    node = Tup(items, old=rng.random() < 0.3)
    if rng.random() < 0.3:
        node = Arr(rng.choice((1, 'uint8')), rng.choice((None, 'uint32')), node)
    cd = simple_class('Wide', [('lead', Basic('uint8')), ('t', node), ('tail', Basic('uint16'))], rng.choice(BO_NAMES))
    everything(case, cd, values=1, mutate=1, truncate=1)


def chain_case(case):
    """Many different classes, each within another."""
    rng = case.rng
    node = rng.choice(LEAFS)()
    for _ in range(rng.randint(8, 40)):
        fields = [('v', node)]
        if rng.random() < 0.4:
            fields.insert(0, ('h', Basic(rng.choice(gen.BASICS))))
        if rng.random() < 0.4:
            fields.append(('w', rng.choice(LEAFS)()))
        node = Nest(simple_class(fresh('Ch'), fields, rng.choice(BO_NAMES)))
        if rng.random() < 0.1:
            node = Tup((node, Basic('uint8')))
    cd = simple_class('Chain', [('a', node), ('z', Basic('uint16'))], rng.choice(BO_NAMES))
    everything(case, cd, values=1, mutate=1, truncate=1)


DEEP = Profile(tuple=35, nest=35, array=15, basic=30, depth=5, max_fields=4)
KINDS = {
    'tuple_pairs': Kind(tuple_pair, len(LEAFS) ** 2, len(LEAFS) ** 2 * 20),
    'layers': Kind(layers_case, 1200, 40000),
    'wide': Kind(wide_case, 12, 600),
    'chain': Kind(chain_case, 12, 600),
    'arity': Kind(arity_case, 500, 15000),
    'random': random_kind(DEEP, 1200, 50000, values=2),
    'deep': random_kind(DEEP.but(depth=6, max_fields=3, consume=0.4), 400, 15000, values=2),
}
