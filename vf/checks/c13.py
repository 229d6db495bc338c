"""typing.Self, and types shared between classes."""

from .common import *

ID = 'C13'
RULE = (
    'Classes with Self in arrays, tuples, conditions and unions (linked lists, binary and n-ary '
    'trees, chains up to depth 257), inherited by subclasses; several classes sharing member types and '
    'nested classes, their objects packed and unpacked in turn. Monitors: the class of every '
    'nested object (the one being unpacked, the subclass in a subclass), values and bytes by the '
    'reference, also for objects with different decisions at each level. Distinct: schema '
    'signature and packed bytes.'
)


def ctrl():
    node = Basic('uint8')
    node.ctrl = True
    return node


def shapes(rng):
    leaf = rng.choice(LEAFS)
    guard = Pred(f'o.k > {rng.randint(3, 5)}', ())
    return [
        [('k', ctrl()), ('v', leaf()), ('next', Cond(SelfRef(), guard, None))],
        [('k', ctrl()), ('next', Cond(SelfRef(), guard, None)), ('v', leaf())],
        [('k', ctrl()), ('left', Cond(SelfRef(), guard, None)), ('v', leaf()),
         ('right', Cond(SelfRef(), Pred('o.k & 1 and o.k > 3', ()), None))],
        [('v', leaf()), ('kids', Arr('uint8', None, SelfRef()))],
        [('kids', Arr('uint16', 'uint32', SelfRef())), ('v', leaf())],
        [('k', ctrl()), ('kids', Arr('uint8', None, Tup((Basic('uint8'), SelfRef())))), ('v', leaf())],
        [('k', ctrl()), ('u', UnionLB(guard, {True: SelfRef(), False: leaf()}, None)), ('v', leaf())],
        [('k', ctrl()), ('u', UnionLB(Pred('o.k', ()), {6: SelfRef(), 7: Tup((SelfRef(), SelfRef())),
                                                       5: Arr('uint8', None, SelfRef())}, leaf()))],
        [('k', ctrl()), ('t', Cond(Tup((leaf(), SelfRef(), Basic('uint8'))), guard, ()))],
        [('cls', ctrl()), ('a', Cond(SelfRef(), Pred('o.cls > 4', ()), None)), ('z', leaf())],
    ]


def looking_ahead(rng):
    """Trees in which the data itself tells what follows, by a byte it starts with."""
    plain = [leaf for leaf in LEAFS if leaf().kind not in ('SerializeAs', 'custom')]
    tag = Basic(rng.choice(('uint8', 'uint16', 'int32')))
    outcomes = {
        0: Tup((tag, rng.choice(plain)())), 1: Tup((tag, SelfRef())), 2: Tup((tag, SelfRef(), SelfRef())),
        3: Tup((tag, Arr('uint8', rng.choice((None, 'uint16')), SelfRef()))), 4: Tup((tag, Tup((Basic('uint16'), SelfRef())))),
        5: Tup((tag,)),
    }
    for k in rng.sample(range(1, 5), rng.randrange(3)):
        del outcomes[k]
    default = Tup((tag, Basic('int16'), SelfRef())) if rng.random() < 0.3 else None
    union = UnionLA(tag, Pred('o.u[0]', (), text=rng.choice((None, 'lambda o: o.u[0]'))), outcomes, default)

    def outcome(vg, o):
        key = vg.rng.choice(list(outcomes) + [99] * (default is not None))
        if vg.depth <= 0:
            key = vg.rng.choice((0, 5))
        node = outcomes.get(key, default)
        return (key, *(vg.value(x, o) for x in node.items[1:]))

    union.draw = outcome
    fields = [('u', union)]
    for name in 'ab':
        if rng.random() < 0.5:
            fields.insert(rng.randint(0, len(fields)), (name, rng.choice(LEAFS)()))
    return fields


def ahead_case(case):
    rng = case.rng
    cd = simple_class('Ahead', looking_ahead(rng), BO_NAMES[case.index % len(BO_NAMES)])
    if rng.random() < 0.3:
        cd = ClassDef('Sub', [('extra', rng.choice(LEAFS)())], cd.bo_name, base=cd)
        gen.finish(cd)
    everything(case, cd, values=5, depth=rng.choice((2, 4, 6)), truncate=2, mutate=3)


def stop(cd):
    cd.stop = True
    return cd


def shape_case(case):
    rng = case.rng
    options = shapes(rng)
    fields = options[case.index % len(options)]
    cd = simple_class('Tree', fields, BO_NAMES[case.index % len(BO_NAMES)])
    if case.index // len(options) % 2:
        more = [('extra', rng.choice(LEAFS)())]
        cd = ClassDef('Sub', more, cd.bo_name, base=cd)
        gen.finish(cd)
    roots = [cd]
    if rng.random() < 0.4:
        roots.append(simple_class('Holder', [
            ('x', Nest(cd)), ('ys', Arr('uint8', None, Nest(cd))), ('z', Basic('uint16')),
        ], rng.choice(BO_NAMES)))
    env = load(case, roots)
    try:
        for root in roots:
            everything(case, root, env, values=4, depth=rng.choice((4, 6, 8)), truncate=2, mutate=2)
    finally:
        env.unload()


LEVELS = (1, 2, 10, 30, 64, 65, 100, 127, 128, 129, 200, 256, 257)


def linked_case(case):
    """Long chains."""
    rng = case.rng
    leaf = rng.choice(LEAFS)
    kind = case.index % 3
    if kind == 0:
        fields = [('k', ctrl()), ('v', leaf()), ('next', Cond(SelfRef(), Pred('o.k > 3', ()), None))]
    elif kind == 1:
        fields = [('k', ctrl()), ('next', Arr('uint8', rng.choice((None, 'uint64')), SelfRef())), ('v', leaf())]
    else:
        fields = [('k', ctrl()), ('next', UnionLB(Pred('o.k > 3', ()), {True: SelfRef(), False: Basic('int8')}, None)),
                  ('v', leaf())]
    cd = simple_class('Chain', fields, rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    try:
        rec = None
        levels = LEVELS[case.index // 3 % len(LEVELS)]
        for level in range(levels):
            node = dict(fields)['v']
            v = ValueGen(rng).value(node, None)
            new = Rec(cd)
            new.vals['k'] = 0 if rec is None else rng.randint(4, 7)
            nxt = rec if kind != 1 else ([] if rec is None else [rec])
            if rec is None and kind == 2:
                nxt = -5
            for n in cd.attrs:
                if n == 'v':
                    new.vals[n] = v
                elif n == 'next':
                    new.vals[n] = nxt
            rec = Rec(cd, {n: new.vals[n] for n in cd.attrs})
        try:
            data = cd.enc(rec)
        except RefError:
            return
        note(case, cd, rec, data)
        b.roundtrip(rec)
        b.truncations(cd, data, 2)
    finally:
        env.unload()


def inherit_case(case):
    """Objects of the class and its subclasses in turn: Self follows the class."""
    rng = case.rng
    options = shapes(rng)
    base = simple_class('Base', rng.choice(options), rng.choice(BO_NAMES))
    subs = []
    for i in range(rng.choice((1, 2))):
        over = rng.random() < 0.4
        sub = ClassDef(f'Sub{i}', [(f'e{i}', rng.choice(LEAFS)())],
                       rng.choice(BO_NAMES) if over else base.bo_name,
                       base=rng.choice([base] + subs) if not over else base,
                       mode='OVERRIDE' if over else None)
        if sub.base.bo_name != sub.bo_name and not over:
            sub = ClassDef(f'Sub{i}', sub.body, sub.base.bo_name, base=sub.base)
        gen.finish(sub)
        subs.append(sub)
    cds = [base] + subs
    env = load(case, cds)
    b = battery(case, env)
    try:
        rounds = [(cd, draw(case, cd)) for cd in cds for _ in range(2)]
        rng.shuffle(rounds)
        for cd, drawn in rounds:
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            b.roundtrip(rec)
    finally:
        env.unload()


def shared_case(case):
    """Classes which share types (and so maybe serializers), used in turn."""
    rng = case.rng
    g = SchemaGen(rng, Profile(max_fields=3, consume=0.0, lookback=15, cond=10, self=5))
    shared = g.class_def(prefix='S')
    item = rng.choice([
        lambda: Nest(shared), lambda: Arr('uint8', None, Nest(shared)),
        lambda: Tup((Nest(shared), Basic('uint8'))),
    ])
    leafs = rng.sample(LEAFS, 3)
    cds = []
    for i in range(3):
        fields = [(f'f{j}', rng.choice(leafs)()) for j in range(2)]
        fields.insert(rng.randrange(3), ('s', item()))
        cds.append(simple_class(f'User{i}', fields, rng.choice(BO_NAMES)))
    env = load(case, cds)
    b = battery(case, env)
    try:
        rounds = [(cd, draw(case, cd)) for cd in cds + [shared] for _ in range(2)]
        rng.shuffle(rounds)
        objs = []
        for cd, drawn in rounds:
            if drawn is None:
                continue
            try:
                cd.decode(drawn[1])
            except RefError:
                continue
            note(case, cd, *drawn)
            objs.append((env.obj(drawn[0]), drawn, env.cls(cd).create_unpack(drawn[1])))
        for _ in range(2):
            rng.shuffle(objs)
            for o, (rec, data), x in objs:
                if o.pack() != data:
                    b.fail('packing in turn with objects of other classes', got=o.pack(), want=data)
                b.unpacking(rec.cd, data)
                case.stats.hit('interleaved')
    finally:
        env.unload()


RECURSIVE = Profile(basic=20, self=40, tuple=8, nest=8, array=12, cond=8, lookback=8)
KINDS = {
    'ahead': Kind(ahead_case, 200, 8000),
    'shapes': Kind(shape_case, 800, 30000),
    'linked': Kind(linked_case, 300, 6000),
    'inherit': Kind(inherit_case, 700, 25000),
    'shared': Kind(shared_case, 700, 25000),
    'random': random_kind(RECURSIVE, 700, 20000, values=2, depth=4),
}
