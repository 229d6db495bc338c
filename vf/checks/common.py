"""Parts shared by the checks."""

from __future__ import annotations

import io
import itertools

from .. import build, gen
from ..battery import Battery, Violation, attempt, short
from ..driver import Case, Kind, KnownFinding
from ..gen import Ctx, Profile, SchemaGen, Skip, ValueGen
from ..model import (
    BO_NAMES, BYTE_ORDERS, SIZE_MAX, SIZE_TYPES, Arr, Basic, CharN, ClassDef, Cond,
    ConsumeChar, Custom, DynChar, Mismatch, Nest, NetChar, Node, Pad, Pascal, Pred, Raw, Rec,
    RefError, SelfRef, SerAs, TermChar, Tup, Uni, UnionLA, UnionLB, same,
)



def load(case, roots, future=None, prelude=''):
    """Define the classes; they are valid, so nothing may be raised."""
    if not isinstance(roots, (list, tuple)):
        roots = [roots]
    if future is None:
        future = case.rng.random() < 0.2
    share = case.rng.choice((0, 0, 1, 2))
    env = build.Env(roots, future=future, prelude=prelude, share=share)
    case.context = env.source
    case.stats.hit('classes_defined', len(env._order))
    env.load()
    return env


def battery(case, env):
    return Battery(env, case.stats, case.rng)


def draw(case, cd, depth=4, big=0.02, tries=4):
    """A value with an encoding, as (model, bytes); or None."""
    for _ in range(tries):
        try:
            rec = ValueGen(case.rng, depth=depth, big=big).rec(cd)
        except Skip:
            continue
        try:
            return rec, cd.enc(rec)
        except RefError:
            continue
    return None


def note(case, cd, rec, data):
    case.stats.case(
        (cd.sig(), data),
        {'class': cd.name, 'schema': short(cd.sig(), 200), 'value': short(rec, 200),
         'packed': short(data, 120)} if len(case.stats.samples) < 3 else None,
    )


def schema(case, profile):
    return SchemaGen(case.rng, profile).root()


def everything(case, cd, env=None, values=2, depth=4, big=0.02, truncate=2, mutate=2,
               small=1, future=None):
    """The full battery on a class."""
    env = load(case, cd, future) if env is None else env
    b = battery(case, env)
    kept = []
    try:
        for _ in range(values):
            drawn = draw(case, cd, depth, big)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            o, data, want = b.roundtrip(rec)
            kept.append((o, rec))
            if small:
                b.too_small(o, data, small)
            if truncate and want is not None:
                b.truncations(cd, data, truncate)
            if mutate:
                b.mutations(cd, data, mutate)
        if len(kept) > 1:
            b.changed(kept[0][0], [rec for _, rec in kept[1:] + kept[:1]])
    finally:
        env.unload()


def random_kind(profile, quick, thorough=None, **kw):
    def fn(case):
        everything(case, schema(case, profile), **kw)

    return Kind(fn, quick, thorough)


_names = itertools.count()


def fresh(prefix):
    return f'{prefix}{next(_names)}'


# One of each kind of hint, for systematic combinations
def make_leafs():
    yield from (lambda n=n: Basic(n) for n in gen.BASICS)
    yield lambda: CharN(3)
    yield lambda: CharN(0)
    yield lambda: Pascal(5)
    yield lambda: SerAs(Basic('int16'), 0)
    yield lambda: SerAs(Basic('float32'), 1, True)
    yield lambda: DynChar('uint8')
    yield lambda: DynChar('uint32')
    yield lambda: NetChar()
    yield lambda: TermChar()
    yield lambda: TermChar(b'\n')
    yield lambda: Uni(CharN(8))
    yield lambda: Uni(DynChar('uint16'), 'utf-16')
    yield lambda: Uni(TermChar(), alias=True)
    yield lambda: Tup((Basic('uint8'), Basic('uint32')))
    yield lambda: Tup((DynChar('uint8'), Pad(1), Basic('int16')))
    yield lambda: Arr(2, None, Basic('int16'))
    yield lambda: Arr('uint16', None, Basic('uint32'))
    yield lambda: Arr('uint8', 'uint32', DynChar('uint8'))
    yield lambda: Arr('uint32', None, Tup((Basic('uint8'), Basic('uint16'))))
    yield lambda: Nest(simple_class(fresh('In'), [('p', Basic('uint8')), ('q', Basic('uint32'))]))
    yield lambda: Nest(simple_class(fresh('Il'), [('p', DynChar('uint16')), ('q', Basic('bool8'))], 'BE'))
    yield lambda: Arr('uint8', None, Nest(simple_class(fresh('It'), [('p', TermChar()), ('q', Basic('int8'))])))
    yield lambda: Custom('VarInt')
    yield lambda: Custom('OrderMark')


LEAFS = list(make_leafs())


def simple_class(name, fields, bo='DEFAULT', **kw):
    cd = ClassDef(name, fields, bo, **kw)
    gen.finish(cd)
    return cd


def pair_kind(first, second, quick=None, bos=BO_NAMES, **kw):
    """Systematic: every hint of `first` followed by every hint of `second`, in
    each byte order (in turn), between two bytes."""
    combos = list(itertools.product(first, second))

    def fn(case):
        a, b = combos[case.index % len(combos)]
        bo = bos[(case.index + case.index // len(combos)) % len(bos)]
        cd = simple_class('Pair', [
            ('lead', Basic('uint8')), ('a', a()), ('b', b()), ('tail', Basic('uint16')),
        ], bo)
        everything(case, cd, **kw)

    n = len(combos) if quick is None else quick
    return Kind(fn, n, max(n, len(combos) * len(bos) * 2))


def reject(case, fn, what, **info):
    ok, out = attempt(fn)
    if isinstance(out, Violation):
        raise out
    case.stats.hit('rejections_expected')
    if ok:
        raise Violation(what + ''.join(f'\n    {k} = {short(v)}' for k, v in info.items())
                        + f'\n    got = {short(out)}')
    return out


def define(case, body, header='', **names):
    """Execute class definitions written by hand; returns the namespace."""
    import sys
    import types

    name = f'vfhand_{case.index}_{next(build._serial)}'
    module = types.ModuleType(name)
    module.__dict__.update(names)
    source = header + build.HEADER + body
    case.context = source
    sys.modules[name] = module
    try:
        exec(compile(source, f'<{name}>', 'exec', dont_inherit=True), module.__dict__)
    finally:
        case.cleanup = name
    return module.__dict__


__all__ = [n for n in globals() if not n.startswith('_')]
