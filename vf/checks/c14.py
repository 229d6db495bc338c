"""Generic classes."""

import typing

from .. import generics
from .common import *

ID = 'C14'
RULE = (
    'Random classes with parts of their hints (members, tuple and array items, counts, sizes, '
    'arguments of nested generic classes) replaced by TypeVars, specialized directly, through '
    'chains of up to 3 partially specialized classes (permuted, shared and renamed TypeVars), '
    'and as hints within other classes (members, array and tuple items, conditions, unions). '
    'Oracle: the class with all members written out, by the reference codec, for all routes. '
    'Also: members of the unspecialized classes, typing introspection, and classes of the same name. Distinct: schema '
    'signature and packed bytes.'
)


def attrs_case(env, case, cd):
    for gdef, names in cd.stages:
        cls = env.name(gdef.name)
        if cls.attrs != names:
            raise Violation(f'{gdef.name}.attrs is {cls.attrs}, expected {names}')
        case.stats.hit('unspecialized_classes')
        # NOTE: TypeVars of different names in the module may have the same name themselves
        params = cls.__parameters__
        local = {p.__name__: p for p in getattr(cls, '__type_params__', ())}
        expected = tuple(local.get(n) or env.name(n) for n in gdef.params)
        if params != expected:
            raise Violation(f'{gdef.name}.__parameters__ is {params}, expected {gdef.params}')
    gdef = cd.gdef
    cls = env.name(gdef.name)
    n = len(gdef.params)
    alias = cls[(int,) * n]
    if typing.get_origin(alias) is not cls or typing.get_args(alias) != (int,) * n:
        raise Violation(f'{gdef.name}[...] is no usual generic alias: {alias!r}')
    if env.cls(cd).byte_order.name != {'LE': 'LITTLE_ENDIAN', 'BE': 'BIG_ENDIAN'}.get(cd.bo_name, cd.bo_name):
        raise Violation(f'{cd.name}.byte_order is {env.cls(cd).byte_order}')
    if env.cls(cd).attrs != cd.attrs:
        raise Violation(f'{cd.name}.attrs is {env.cls(cd).attrs}, expected {cd.attrs}')


def chain_case(case):
    rng = case.rng
    cd = generics.make(rng)
    env = load(case, cd, prelude=generics.prelude(case.rng))
    try:
        attrs_case(env, case, cd)
        everything(case, cd, env, values=3, truncate=1, mutate=1)
    finally:
        env.unload()


def hint_case(case):
    """Specializations as hints within another class."""
    rng = case.rng
    fields = [('k', Basic('uint8'))]
    fields[0][1].ctrl = True
    subs = [generics.make(rng, levels=rng.choice((1, 1, 2)), inner=0.2, consume=False, own=False)
            for _ in range(rng.choice((1, 2)))]
    hints = []
    for i, sub in enumerate(subs + subs[:1] * (rng.random() < 0.5)):
        node = Nest(sub, (sub.gdef, sub.args))
        hints.append((sub, node))
        kind = rng.randrange(6)
        if kind == 1:
            node = Arr(rng.choice(('uint8', 2)), rng.choice((None, 'uint32')), node)
        elif kind == 2:
            node = Tup((Basic('uint16'), node, DynChar('uint8')))
        elif kind == 3:
            node = Cond(node, Pred('o.k & 1', ()), None)
        elif kind == 4:
            node = UnionLB(Pred('o.k & 1', ()), {0: node, 1: rng.choice(LEAFS)()}, None)
        fields.append((f'm{i}', node))
        if rng.random() < 0.5:
            fields.append((f'x{i}', rng.choice(LEAFS)()))
    cd = simple_class('Outer', fields, rng.choice(BO_NAMES))
    env = load(case, cd, prelude=generics.prelude(case.rng))
    try:
        cls = env.cls(cd)
        shown = typing.get_type_hints(cls, include_extras=True)
        for n, node in cd.fields:
            if isinstance(node, Nest) and node.generic_args is not None:
                got = shown[n]
                if typing.get_origin(got) is not env.name(node.generic_args[0].name):
                    raise Violation(f'the hint of member {n} was changed to {got!r}')
        everything(case, cd, env, values=3, truncate=1, mutate=1)
    finally:
        env.unload()


def bare_case(case):
    """An unspecialized generic class works with the members it has hints of."""
    rng = case.rng
    cd = generics.make(rng, Profile(max_fields=4, depth=2, raw=0.0, styles=0.0, consume=0.0, cond=0,
                                    lookback=0, lookahead=0, custom=0, self=0), inner=0.0, drop=0.0)
    bares = []
    names = dict(cd.fields)
    for gdef, attrs in cd.stages:
        pads = ()
        body = [(n, nd) for n, nd in cd.body if isinstance(nd, Node) and (n in attrs or not nd.nvals)]
        bares.append((gdef, attrs))
    env = load(case, cd, prelude=generics.prelude(case.rng))
    b = battery(case, env)
    try:
        attrs_case(env, case, cd)
        for gdef, attrs in bares:
            if set(attrs) - set(names) or any(n == '_' for n, _ in cd.fields):
                continue
            if any(not nd.nvals for _, nd in cd.fields):
                continue
            # Members redefined by the final class have another type there
            if (cd.redefined | {n for n, _ in cd.own}) & set(attrs):
                continue
            twin = ClassDef(gdef.name, [(n, names[n]) for n in attrs], cd.bo_name)
            gen.finish(twin)
            env.by_type[env.name(gdef.name)] = twin
            drawn = draw(case, twin)
            if drawn is None:
                continue
            note(case, twin, *drawn)
            b.roundtrip(drawn[0])
            try:
                twin.decode(drawn[1])
            except RefError:
                # Not every packed value can be unpacked (unicode in too few bytes)
                continue
            alias = env.name(gdef.name)[(int,) * len(gdef.params)]
            x = alias.create_unpack(drawn[1])
            if type(x) is not env.name(gdef.name):
                raise Violation(f'{gdef.name}[...].create_unpack created a {type(x)}')
    finally:
        env.unload()


def siblings_case(case):
    """Several specializations of one class, used in turn."""
    rng = case.rng
    cd = generics.make(rng, levels=1, inner=0.0, drop=0.0, p=0.9)
    gdef = cd.gdef
    roots = [cd]
    for i in range(rng.choice((1, 2, 3))):
        # Other arguments for members which are just a TypeVar
        args = list(cd.args)
        body = list(cd.body)
        used = gen.used_names(cd)
        for j, (name, arg) in enumerate(zip(gdef.params, cd.args)):
            holders = [n for n, t in gdef.body if isinstance(t, generics.TVar) and t.name == name]
            if isinstance(arg, generics.Text) or set(holders) & (used | {n for n, _ in cd.own}):
                continue
            others = [t for n, t in gdef.body if n not in holders and
                      name in generics_names(t)]
            if others or not holders or rng.random() < 0.3:
                continue
            new = rng.choice(LEAFS)()
            args[j] = new
            body = [(n, new if n in holders else nd) for n, nd in body]
        sib = generics.Concrete(f'{cd.name}s{i}', gdef, args, body, cd.bo_name, cd.own)
        gen.finish(sib)
        sib.stages = cd.stages
        roots.append(sib)
    holders = []
    if all(not r.final for r in roots) and not cd.own:
        outer = simple_class('Both', [
            (f'm{i}', Nest(r, (gdef, r.args))) for i, r in enumerate(roots)
        ], rng.choice(BO_NAMES))
        roots.append(outer)
    env = load(case, roots, prelude=generics.prelude(case.rng))
    b = battery(case, env)
    try:
        rounds = [(r, draw(case, r)) for r in roots for _ in range(2)]
        rng.shuffle(rounds)
        for r, drawn in rounds:
            if drawn is None:
                continue
            note(case, r, *drawn)
            b.roundtrip(drawn[0])
    finally:
        env.unload()


def generics_names(node):
    if isinstance(node, generics.TVar):
        return {node.name}
    out = set()
    if isinstance(node, Arr):
        out |= {node.count, node.size}
    if isinstance(node, DynChar):
        out.add(node.size)
    if isinstance(node, Nest):
        if node.generic_args is not None:
            for a in node.generic_args[1]:
                out |= generics_names(a)
        return out
    for child in node.children():
        out |= generics_names(child)
    return out


class _Ps:
    def __init__(self, args):
        self.args = args


def namesakes_case(case):
    """Classes of the same names, from different modules, used in turn."""
    rng = case.rng
    pick = rng.randrange(5)
    envs = []
    bo = rng.choice(BO_NAMES)
    try:
        for _ in range(rng.choice((2, 2, 3))):
            if pick == 0:
                arg = Nest(simple_class('Arg', [(f'a{i}', rng.choice(LEAFS)()) for i in range(2)], bo))
            elif pick == 1:
                arg = Basic('int16')
            elif pick == 2:
                arg = Basic('uint16')
            elif pick == 3:
                arg = Tup((Basic('uint8'), Basic('uint8')))
            else:
                arg = DynChar('uint8')
            n = rng.randint(1, 4)
            at = rng.randrange(n)
            names = 'abcd'
            body, full = [], []
            for i in range(n):
                node = arg if i == at else rng.choice(LEAFS)()
                twin = generics.TVar('T') if i == at else node
                if i != at and rng.random() < 0.3:
                    node, twin = Arr(2, None, arg), Arr(2, None, generics.TVar('T'))
                body.append((names[i], twin))
                full.append((names[i], node))
            gdef = generics.GenericDef('Inner', _Ps({'T': arg}), body, bo)
            sub = generics.Concrete('Filled', gdef, [arg], full, bo)
            gen.finish(sub)
            hint = Nest(sub, (gdef, [arg]))
            cd = simple_class('Outer', [('k', Basic('uint8')), ('x', hint),
                                        ('y', Arr('uint8', None, hint))], rng.choice(BO_NAMES))
            env = load(case, cd, prelude=generics.prelude(case.rng))
            envs.append((env, cd))
        for _ in range(3):
            env, cd = rng.choice(envs)
            case.context = '\n# ---\n'.join(e.source for e, _ in envs)
            drawn = draw(case, cd)
            if drawn is None:
                continue
            note(case, cd, *drawn)
            battery(case, env).roundtrip(drawn[0])
    finally:
        for env, _ in envs:
            env.unload()


KINDS = {
    'namesakes': Kind(namesakes_case, 300, 6000),
    'chain': Kind(chain_case, 1500, 60000),
    'hint': Kind(hint_case, 800, 30000),
    'bare': Kind(bare_case, 500, 15000),
    'siblings': Kind(siblings_case, 500, 15000),
}
