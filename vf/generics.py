"""Generic classes: definitions with TypeVars, the classes which specialize
them, and the class a user would have written by hand in place of these."""

from __future__ import annotations

import itertools
import sys

from . import gen
from .gen import Profile, SchemaGen, finish
from .model import (
    BYTE_ORDERS, Arr, Basic, ClassDef, Custom, DynChar, Nest, NetChar, Node, Pad, Raw,
    SelfRef, Tup, Uni,
)
from . import build

_serial = itertools.count()
POOL = ('T', 'U', 'V', 'W', 'X', 'Y', 'Z', 'A1', 'A2', 'A3', 'A4', 'A5', 'A6', 'A7', 'A8')


def prelude(rng):
    """Definitions of the TypeVars: mostly plain ones, but their names need not differ."""
    r = rng.random()
    out = ''
    for n in POOL:
        name = 'T' if r < 0.08 or r < 0.16 and rng.random() < 0.5 else n
        more = rng.choice(('', '', ', bound=Any', ', covariant=True')) if r > 0.85 else ''
        out += f"{n} = TypeVar({name!r}{more})\n"
    return out


class Text(Node):
    """A type argument which is no serialized type (size types, NET, int)."""

    def __init__(self, text):
        self.text = text
        self.kind = text

    def src(self, c):
        return self.text


class TVar(Node):
    kind = 'TypeVar'

    def __init__(self, name, style='{}'):
        self.name = name
        self.style = style

    def src(self, c):
        return self.style.format(self.name)


class Params:
    """The TypeVars of one class, and the arguments these stand for."""

    def __init__(self, rng, share=0.4):
        self.rng = rng
        self.args = {}  # name -> Node
        self.keys = {}  # what can be shared -> name
        self.whole = {}  # name -> number of members which are just this TypeVar
        self.share = share
        self.used = None  # names used since reset
        self.names = list(POOL)
        rng.shuffle(self.names)

    def new(self, arg, key=None):
        name = None
        if key is not None and key in self.keys and self.rng.random() < self.share:
            name = self.keys[key]
        elif len(self.args) < len(POOL):
            name = self.names[len(self.args)]
            self.args[name] = arg
            if key is not None:
                self.keys[key] = name
        if name is not None and self.used is not None:
            self.used.add(name)
        return name

    def node(self, node):
        key = node.name if isinstance(node, Basic) and not node.wrap and not node.note else None
        name = self.new(node, key)
        style = '{}'
        if self.rng.random() < 0.12:
            style = self.rng.choice(("Annotated[{}, 'note']", 'Annotated[{}, 1, int]'))
        return node if name is None else TVar(name, style)

    def size(self, text):
        return self.new(Text(text), text) or text


def plain(node):
    """Whether a TypeVar can stand for this hint"""
    if isinstance(node, (Pad, SelfRef)) or not node.nvals:
        return False
    if isinstance(node, Custom) and node.direct:
        return False
    return not any(isinstance(s, SelfRef) for s in build.walk_local(node))


def abstract(node, ps, p):
    """The hint with parts replaced by TypeVars."""
    rng = ps.rng
    if isinstance(node, (TVar, Text)):
        if rng.random() < p:
            name = ps.new(node, node.kind if isinstance(node, Text) else None)
            return node if name is None else TVar(name)
        return node
    if plain(node) and rng.random() < p:
        return ps.node(node)
    if isinstance(node, Tup):
        return Tup(tuple(abstract(i, ps, p) for i in node.items), node.old)
    if isinstance(node, Arr):
        count = size = None
        if not isinstance(node.count, int) and rng.random() < p:
            count = ps.size(node.count)
        if node.size is not None and rng.random() < p:
            size = ps.size(node.size)
        return Arr(count or node.count, size or node.size, abstract(node.item, ps, p), node.wrap)
    if isinstance(node, DynChar) and rng.random() < p:
        return DynChar(ps.size(node.size))
    if isinstance(node, NetChar) and rng.random() < p:
        return DynChar(ps.size('NET'))
    if isinstance(node, Uni) and isinstance(node.base, DynChar) and rng.random() < p:
        return Uni(DynChar(ps.size(node.base.size)), node.encoding, explicit=node.explicit)
    if isinstance(node, Nest) and node.generic_args is not None:
        gdef, args = node.generic_args
        return Nest(None, (gdef, [abstract(a, ps, p) for a in args]))
    return node


class GenericDef:
    """A generic class."""

    def __init__(self, name, ps, body, bo, base=None, explicit=True):
        self.name = name
        self.params = list(ps.args)
        self.body = body
        self.bo_name = bo
        self.base = base  # (GenericDef, argument nodes)
        self.explicit = explicit
        self.modern = False  # with a list of type parameters
        self.styles = {}  # name of a member -> how to write its hint

    def hint(self, name, text, env):
        style = self.styles.get(name, '{}')
        # NOTE: typing does not find type parameters by name
        if '"' in style and (self.modern or env.future or '"' in text or '\\' in text):
            return text
        return style.format(text)

    def print(self, env):
        kwargs = ''
        if self.bo_name != 'DEFAULT':
            kwargs = f', byte_order=ByteOrder.{self.bo_name}'
        bases = []
        params = ''
        if self.explicit and self.modern and not env.future and sys.version_info >= (3, 12):
            params = '[' + ', '.join(self.params) + ']'
        elif self.explicit:
            bases.append('Generic[' + ', '.join(self.params) + ']')
        if self.base is None:
            bases.append('Structured')
        else:
            gdef, args = self.base
            env.need(gdef)
            bases.append(f'{gdef.name}[' + ', '.join(a.src(env) for a in args) + ']')
        lines = ''.join(
            f'    {n}: {self.hint(n, hint.src(env) if isinstance(hint, Node) else hint.text, env)}\n'
            for n, hint in self.body
        )
        return f"\nclass {self.name}{params}({', '.join(bases)}{kwargs}):\n" + (lines or '    pass\n')


class Concrete(ClassDef):
    """`class name(gdef[args]): own`, equal to a class with all of the members."""

    def __init__(self, name, gdef, args, body, bo, own=()):
        super().__init__(name, body, bo)
        self.gdef = gdef
        self.args = args
        self.own = own
        self.anon = True

    def print(self, env):
        env.need(self.gdef)
        for node in self.nodes:
            for sub in node.walk():
                if isinstance(sub, Nest):
                    env.need(sub.cd)
        kwargs = '' if self.bo_name == 'DEFAULT' else f', byte_order=ByteOrder.{self.bo_name}'
        lines = ''.join(
            f'    {n}: {hint.src(env) if isinstance(hint, Node) else hint.text}\n'
            for n, hint in self.own
        )
        args = ', '.join(a.src(env) for a in self.args)
        return f'\nclass {self.name}({self.gdef.name}[{args}]{kwargs}):\n' + (lines or '    pass\n')


def make(rng, profile=None, levels=None, p=None, inner=0.35, consume=True, drop=0.15, bo=None,
         own=True, redefine=0.15):
    """A chain of generic classes and the class specializing it.  Returns the
    Concrete class definition; its `stages` are (GenericDef, names of members which are
    serialized without specialization)."""
    profile = profile or Profile(max_fields=4, depth=2, inherit=0.0, styles=0.0, raw=0.0, consume=0.0)
    levels = rng.choice((1, 1, 1, 2, 2, 3)) if levels is None else levels
    p = rng.choice((0.3, 0.6, 0.9)) if p is None else p
    tag = next(_serial)
    bo = rng.choice(profile.bos) if bo is None else bo
    fields = []  # [name, concrete node, open parameters]
    gdef = None
    args = []
    stages = []
    redefined = set()
    for level in range(levels):
        ps = Params(rng)
        before = [[f[0], f[1], set(f[2]), *f[3:]] for f in fields]
        redefined_before = set(redefined)
        base = None
        explicit = True
        if gdef is not None:
            new_args = []
            opened = {}
            for name, arg in zip(gdef.params, args):
                ps.used = set()
                new_args.append(abstract(arg, ps, 0.5))
                opened[name] = ps.used
            for f in fields:
                f[2] = set().union(*(opened[n] for n in f[2])) if f[2] else set()
            base = (gdef, new_args)
        body = []
        if level == 0 or rng.random() < 0.6:
            g = SchemaGen(rng, profile)
            g.serial = 100 * tag + 10 * level
            cd = g.class_def(
                bo=bo, taken={f[0] for f in fields}, n=rng.randint(1, 3),
                earlier=tuple((f[0], f[1]) for f in fields if f[0] != '_' and isinstance(f[1], Node)), prefix='GN',
            )
            hints = [(n, nd) for n, nd in cd.body if isinstance(nd, Node)]
            if inner and rng.random() < inner:
                sub = make(rng, profile, levels=1, inner=inner / 3, consume=False, drop=0, own=False)
                name = next(x for x in ('inner', 'inner2', 'inner3', 'inner4')
                            if x not in {f[0] for f in fields} | {n for n, _ in hints})
                node = Nest(sub, (sub.gdef, sub.args))
                r = rng.random()
                if r < 0.25:
                    node = Arr(gen.INTS[1], None, node)
                elif r < 0.4:
                    node = Tup((Basic('uint8'), node))
                hints.insert(rng.randint(0, len(hints)), (name, node))
            for n, nd in hints:
                if nd.final:
                    continue
                ps.used = set()
                twin = abstract(nd, ps, p)
                fields.append([n, nd, ps.used, twin])
                body.append((n, twin))
        # Members of earlier classes with another type
        if level and redefine:
            tmp = ClassDef('tmp', [(f[0], f[1]) for f in fields])
            for f in fields:
                if (
                    f[0] in {n for n, _ in body} or f[0] == '_' or not isinstance(f[1], Node)
                    or not f[1].nvals or f[0] in gen.used_names(tmp) or rng.random() > redefine
                ):
                    continue
                ps.used = set()
                r = rng.random()
                if r < 0.15:
                    f[1] = twin = Raw(rng.choice(('None', 'int')))
                else:
                    f[1] = Basic(rng.choice(gen.BASICS))
                    if r < 0.4:
                        f[1] = Arr(rng.choice((2, 'uint8')), None, f[1])
                    elif r < 0.5:
                        f[1] = DynChar('uint8')
                    twin = abstract(f[1], ps, p)
                f[2], f[3] = ps.used, twin
                body.append((f[0], twin))
                redefined.add(f[0])
        ps.used = None
        if not ps.args:
            if level == 0:
                ps.used = set()
                node = Basic(rng.choice(gen.BASICS))
                name = next(x for x in ('gen1', 'gen2', 'gen3') if x not in {f[0] for f in fields})
                twin = ps.node(node)
                fields.append([name, node, ps.used, twin])
                body.append((name, twin))
            else:
                # Nothing generic about it any longer
                fields = before
                redefined = redefined_before
                break
        if base is not None:
            plain_vars = all(isinstance(a, TVar) or not _tvars(a) for a in base[1])
            own_vars = any(_tvars(t) for _, t in body)
            if plain_vars and not own_vars and rng.random() < 0.5:
                order = list(dict.fromkeys(a.name for a in base[1] if isinstance(a, TVar)))
                if set(order) == set(ps.args):
                    ps.args = {n: ps.args[n] for n in order}
                    explicit = False
        if explicit and rng.random() < 0.5:
            items = list(ps.args.items())
            rng.shuffle(items)
            ps.args = dict(items)
        gdef = GenericDef(f'Gen{tag}x{level}', ps, body, bo, base, explicit)
        gdef.modern = rng.random() < 0.25
        gdef.styles = {
            n: rng.choice(("Annotated[{}, 'note']", '"{}"'))
            for n, hint in body if isinstance(hint, Node) and rng.random() < 0.1
        }
        args = list(ps.args.values())
        stages.append((gdef, tuple(f[0] for f in fields if not f[2] and isinstance(f[1], Node) and f[1].nvals)))
    # The class specializing the chain
    used = gen.used_names(ClassDef('tmp', [(f[0], f[1]) for f in fields]))
    final = []
    dropped = set()
    args = list(args)
    for i, name in enumerate(gdef.params):
        holders = [f for f in fields if name in f[2]]
        if (
            len(holders) == 1 and holders[0][2] == {name} and isinstance(holders[0][3], TVar)
            and gdef.base is None and holders[0][0] not in used and rng.random() < drop
        ):
            args[i] = Text(rng.choice(('int', 'str', 'list')))
            dropped.add(holders[0][0])
    with_own, own = own, []
    for f in fields:
        n, nd = f[0], f[1]
        if n in dropped:
            final.append((n, Raw('int')))
        elif with_own and n != '_' and n not in used and isinstance(nd, Node) and nd.nvals and rng.random() < 0.06:
            new = Raw('None') if rng.random() < 0.4 else Basic(rng.choice(gen.BASICS))
            final.append((n, new))
            own.append((n, new))
        else:
            final.append((n, nd))
    if with_own and rng.random() < 0.3:
        g = SchemaGen(rng, profile.but(self=0, consume=0.2 if consume else 0.0))
        g.serial = 100 * tag + 90
        extra = g.class_def(
            bo=bo, taken={f[0] for f in fields} | {'inner'}, n=rng.randint(1, 2), prefix='GN',
            earlier=tuple(x for x in final if isinstance(x[1], Node) and x[0] != '_'),
        )
        add = [x for x in extra.body if isinstance(x[1], Node)]
        if any(nd.final for _, nd in add) and any(
            isinstance(s, SelfRef) for _, nd in final if isinstance(nd, Node)
            for s in build.walk_local(nd)
        ):
            add = [x for x in add if not x[1].final]
        own += add
        final += add
    cd = Concrete(f'Conc{tag}', gdef, args, final, bo, own)
    finish(cd)
    cd.stages = stages
    cd.redefined = redefined
    return cd


def _tvars(node):
    if isinstance(node, TVar):
        return True
    if isinstance(node, Arr) and (node.count in POOL or node.size in POOL):
        return True
    if isinstance(node, DynChar):
        return node.size in POOL
    if isinstance(node, Uni):
        return _tvars(node.base)
    if isinstance(node, Nest):
        return node.generic_args is not None and any(map(_tvars, node.generic_args[1]))
    return isinstance(node, (Tup, Arr)) and any(map(_tvars, node.children()))
