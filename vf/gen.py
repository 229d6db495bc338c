"""Random schemas and values.

Everything is drawn from one `random.Random`, so a case is reproduced from its
seed.  A `Profile` biases the schemas towards the property being checked.
"""

from __future__ import annotations

import random
import struct

from . import build
from .model import (
    BO_NAMES, Arr, Basic, CharN, ClassDef, Cond, ConsumeChar, Custom, DynChar, Nest,
    NetChar, Node, Pad, Pascal, Pred, Raw, Rec, RefError, SelfRef, SerAs, TermChar, Tup,
    Uni, UnionLA, UnionLB,
)
from .userlib import CUSTOM_FLAVOURS

INTS = ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64')
FLOATS = ('float16', 'float32', 'float64')
BASICS = ('bool8',) + INTS + FLOATS
INT_RANGE = {
    'int8': (-(2**7), 2**7 - 1), 'uint8': (0, 2**8 - 1),
    'int16': (-(2**15), 2**15 - 1), 'uint16': (0, 2**16 - 1),
    'int32': (-(2**31), 2**31 - 1), 'uint32': (0, 2**32 - 1),
    'int64': (-(2**63), 2**63 - 1), 'uint64': (0, 2**64 - 1),
}
TERMS = (b'\0', b'\0', b'\0', b'\n', b'|', b'\xff', b'A', b']', b'\\')
ENCODINGS = (
    'utf8', 'utf8', 'utf8', 'ascii', 'latin-1', 'utf-16', 'utf-16-le', 'utf-16-be',
    'utf-32-le', 'cp1252', 'utf-8-sig', 'CodecRot', 'CodecHex',
)
NAMES = (
    'a', 'b', 'c', 'd', 'e', 'f', 'x', 'y', 'z', 'name', 'value', 'items', 'count',
    'data', 'cls', 'buffer', 'offset', 'kind', 'tag', 'key', 'obj', 'type', 'id',
    '_hidden', 'a1', 'very_long_member_name', 'B', 'values', 'proxy', 'args', 'length',
    'other', 'index', 'struct', 'format', 'default', 'result', 'header', 'é',
)

DEFAULT_WEIGHTS = {
    'basic': 30, 'charn': 8, 'pascal': 3, 'pad': 4, 'seras': 4, 'dynchar': 6, 'net': 3,
    'term': 6, 'uni': 7, 'tuple': 7, 'array': 9, 'nest': 6, 'cond': 6, 'lookback': 4,
    'lookahead': 2, 'self': 2, 'custom': 2,
}


class Profile:
    def __init__(this, /, max_fields=6, depth=3, consume=0.12, bos=BO_NAMES, future=0.2,
                 styles=0.2, inherit=0.0, raw=0.15, size_types=None, only=None, probes=0.0, **weights):
        this.weights = dict(DEFAULT_WEIGHTS)
        if only is not None:
            this.weights = dict.fromkeys(this.weights, 0)
            this.weights.update(only)
        this.weights.update(weights)
        this.max_fields = max_fields
        this.depth = depth
        this.consume = consume
        this.bos = bos
        this.future = future
        this.styles = styles
        this.inherit = inherit
        this.raw = raw
        this.probes = probes
        this.size_types = size_types or ('uint8', 'uint8', 'uint16', 'uint32', 'uint64')

    def but(this, /, **weights):
        new = Profile.__new__(Profile)
        new.__dict__.update(this.__dict__)
        new.weights = {**this.weights}
        for k, v in weights.items():
            if k in new.weights:
                new.weights[k] = v
            else:
                setattr(new, k, v)
        return new


class Ctx:
    """Where a hint is going to be used."""

    def __init__(self, depth, earlier=(), in_array=False, last=False, field=False,
                 in_union=False, name=None, no_self=True,
                 in_lookback=False):
        self.depth = depth
        self.earlier = earlier
        self.in_array = in_array
        self.last = last
        self.field = field
        self.in_union = in_union
        self.name = name
        self.no_self = no_self
        self.in_lookback = in_lookback

    def sub(self, **kw):
        new = Ctx.__new__(Ctx)
        new.__dict__.update(self.__dict__)
        new.depth = self.depth - 1
        new.field = False
        new.__dict__.update(kw)
        return new


def compatible(nodes):
    """Whether the serializers of these nodes can follow each other: a final one
    has to be the last."""
    return not any(n.final for n in nodes[:-1])


class SchemaGen:
    def __init__(self, rng, profile):
        self.rng = rng
        self.p = profile
        self.serial = 0
        self.uses_self = False

    # ---- hints
    def hint(self, ctx) -> Node:
        rng = self.rng
        w = dict(self.p.weights)
        if ctx.depth <= 0:
            for k in ('tuple', 'array', 'nest', 'cond', 'lookback', 'lookahead', 'self'):
                w[k] = 0
        if not ctx.field:
            w['pad'] = w['pad'] // 4 if not ctx.in_array and not ctx.in_union else 0
            w['lookahead'] = 0
        if ctx.in_array or ctx.in_union:
            # No predicate can tell the items of an array apart
            w['self'] = w['self'] if not ctx.no_self and ctx.in_array else 0
        if ctx.in_union:
            w['cond'] = 0
            if not ctx.in_lookback:
                w['seras'] = 0
        if ctx.no_self:
            w['self'] = 0
        if ctx.last and not ctx.in_array and rng.random() < self.p.consume:
            node = ConsumeChar()
            return node if rng.random() < 0.6 else Uni(node, rng.choice(ENCODINGS))
        kinds = [k for k, v in w.items() if v > 0]
        if not kinds:
            return self.make_basic(ctx)
        kind = rng.choices(kinds, [w[k] for k in kinds])[0]
        node = getattr(self, f'make_{kind}')(ctx)
        if rng.random() < 0.03:
            node.note = rng.choice(("'note'", '1', 'int', "'uint8'", 'object()'))
        return node

    def make_basic(self, ctx):
        rng = self.rng
        return Basic(rng.choice(BASICS), wrap=rng.choice((0, 0, 0, 0, 1, 2)))

    def small_len(self):
        rng = self.rng
        return rng.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 16, rng.randint(0, 40)))

    def make_charn(self, ctx):
        return CharN(self.small_len())

    def make_pascal(self, ctx):
        return Pascal(max(1, self.small_len()))

    def make_pad(self, ctx):
        return Pad(self.rng.choice((1, 1, 2, 3, 4, 7, 0)))

    def make_seras(self, ctx):
        rng = self.rng
        base = Basic(rng.choice(BASICS)) if rng.random() < 0.85 else CharN(rng.randint(1, 5))
        return SerAs(base, rng.randrange(CUSTOM_FLAVOURS), rng.random() < 0.4)

    def size_type(self):
        return self.rng.choice(self.p.size_types)

    def make_dynchar(self, ctx):
        return DynChar(self.size_type())

    def make_net(self, ctx):
        return NetChar()

    def make_term(self, ctx):
        return TermChar(self.rng.choice(TERMS), alias=self.rng.random() < 0.3)

    def make_uni(self, ctx):
        rng = self.rng
        kind = rng.choice(('n', 'dyn', 'dyn', 'net', 'term', 'term'))
        enc = rng.choice(ENCODINGS)
        if kind == 'n':
            return Uni(CharN(rng.choice((1, 4, 8, 12, 20, 24))), enc, explicit=rng.random() < 0.5)
        if kind == 'dyn':
            return Uni(DynChar(self.size_type()), enc, explicit=rng.random() < 0.5)
        if kind == 'net':
            return Uni(NetChar(), enc, explicit=rng.random() < 0.5)
        # Encodings in which the terminator can not be part of a character
        term, enc = rng.choice((
            (b'\0', 'utf8'), (b'\0', 'ascii'), (b'\0', 'latin-1'), (b'\n', 'utf8'),
            (b'\xff', 'utf8'), (b'\0', 'cp1252'), (b'|', 'CodecHex'),
        ))
        return Uni(TermChar(term), enc, alias=(term, enc) == (b'\0', 'utf8') and rng.random() < 0.5)

    def make_tuple(self, ctx):
        rng = self.rng
        n = rng.choice((1, 1, 2, 2, 3, 4))
        items = []
        for i in range(n):
            items.append(self.hint(ctx.sub(last=ctx.last and i == n - 1)))
        if not compatible(items):
            return self.make_basic(ctx)
        if not any(i.nvals for i in items):
            items.insert(0, self.make_basic(ctx))
        return Tup(items, old=rng.random() < 0.3)

    def make_array(self, ctx):
        rng = self.rng
        count = rng.choice((0, 1, 2, 3, 5)) if rng.random() < 0.35 else self.size_type()
        size = self.size_type() if rng.random() < 0.35 else None
        item = self.hint(ctx.sub(in_array=True, last=False))
        if item.final or not item.nvals:
            item = self.make_basic(ctx)
        if isinstance(count, int) and any(isinstance(s, SelfRef) for s in build.walk_local(item)):
            count = 'uint8'
        return Arr(count, size, item, wrap=rng.random() < 0.2)

    def make_nest(self, ctx):
        sub = self.p.but(consume=self.p.consume if ctx.last and not ctx.in_array else 0.0,
                         max_fields=min(3, self.p.max_fields))
        gen = SchemaGen(self.rng, sub)
        gen.serial = self.serial
        cd = gen.class_def(ctx.depth - 1, prefix='N')
        self.serial = gen.serial
        if cd.final and not (ctx.last and not ctx.in_array):
            return self.make_basic(ctx)
        return Nest(cd)

    def make_pred(self, ctx):
        """A boolean expression over the earlier members."""
        rng = self.rng
        options = []
        for n, node in ctx.earlier:
            if isinstance(node, Basic) and (node.fmt in 'bBhHiIqQ?'):
                if getattr(node, 'ctrl', False):
                    options += [f'o.{n} & {rng.choice((1, 2, 4))}', f'o.{n} > {rng.randint(0, 6)}',
                                f'o.{n} == {rng.randint(0, 7)}', f'not o.{n} & 1'] * 2
                else:
                    options += [f'o.{n} & 1', f'o.{n} >= 0', f'o.{n} < 5']
            elif isinstance(node, (DynChar, NetChar, CharN, TermChar, Uni, Arr)):
                options += [f'len(o.{n}) > {rng.randint(0, 3)}', f'len(o.{n}) % 2']
            elif isinstance(node, Nest) and node.cd.attrs:
                sub_n, sub = node.cd.named()[0]
                if isinstance(sub, Basic) and sub.fmt in 'bBhHiI?':
                    options.append(f'o.{n}.{sub_n} & 1')
        if not options:
            options = ['True', 'False', '1', '0']
        return Pred(rng.choice(options), (), rng.choice(list(build.Hooks.TRUTHY)))

    def make_cond(self, ctx):
        rng = self.rng
        if not ctx.earlier and rng.random() < 0.8:
            return self.make_basic(ctx)
        pred = self.make_pred(ctx)
        item = self.hint(ctx.sub(last=ctx.last, in_union=False, field=False,
                                 depth=ctx.depth - 1))
        if isinstance(item, Cond) and rng.random() < 0.5:
            item = item.item
        if item.nvals:
            r = rng.random()
            if r < 0.6:
                try:
                    default = ValueGen(rng, self.p).value(item, None)
                    check_lib_default(item, default)
                except (RefError, Skip):
                    default = None
            else:
                default = rng.choice((None, 0, -1, b'', 'none', 1.5, ()))
        else:
            default = None
        twins = [nd for _, nd in ctx.earlier
                 if isinstance(nd, Cond) and nd.item.nvals == item.nvals]
        if twins and rng.random() < 0.3:
            # The same Condition
            twin = rng.choice(twins)
            pred, default = twin.pred, twin.default
        return Cond(item, pred, default)

    def keys_expr(self, ctx):
        """Integer valued expression and its values"""
        rng = self.rng
        ctrl = [n for n, node in ctx.earlier if getattr(node, 'ctrl', False)]
        ints = [n for n, node in ctx.earlier
                if isinstance(node, Basic) and node.fmt in 'bBhHiIqQ']
        byts = [n for n, node in ctx.earlier if isinstance(node, (DynChar, CharN))]
        opts = []
        if ctrl:
            n = rng.choice(ctrl)
            opts += [(f'o.{n}', range(8)), (f'o.{n} % 3', range(3)), (f'o.{n} > 3', (False, True))] * 2
        if ints:
            opts.append((f'o.{rng.choice(ints)} & 3', range(4)))
        if byts:
            opts.append((f'len(o.{rng.choice(byts)})', range(5)))
        return rng.choice(opts) if opts else None

    def make_lookback(self, ctx):
        rng = self.rng
        expr = self.keys_expr(ctx)
        if expr is None:
            return self.make_basic(ctx)
        expr, keys = expr
        keys = list(keys)
        chosen = rng.sample(keys, rng.randint(1, min(4, len(keys))))
        inner = ctx.sub(in_union=True, last=ctx.last, in_lookback=True)
        result_map = {}
        for k in chosen:
            node = self.hint(inner)
            result_map[k] = node if node.nvals else self.make_basic(ctx)
        default = None
        if rng.random() < 0.5:
            default = self.hint(inner)
            if not default.nvals:
                default = self.make_basic(ctx)
        return UnionLB(Pred(expr, ()), result_map, default)

    def make_lookahead(self, ctx):
        rng = self.rng
        if not ctx.field:
            return self.make_basic(ctx)
        ahead = rng.choice((
            Basic('uint8'), Basic('uint16'), CharN(1), CharN(4), Basic('int32'), Basic('bool8'),
            Tup((Basic('uint8'), Basic('uint8'))), DynChar('uint8'), TermChar(b'\0'),
        ))
        tags = []
        vgen = ValueGen(rng, self.p)
        for _ in range(12):
            t = vgen.value(ahead, None)
            if isinstance(ahead, CharN):
                t = t[: ahead.n].ljust(ahead.n, b'\0')
            if isinstance(ahead, TermChar):
                t = t.rstrip(b'\0')
            if not any(type(t) is type(u) and t == u for u in tags):
                tags.append(t)
        n = rng.randint(1, min(3, len(tags)))
        result_map = {}
        for tag in tags[:n]:
            result_map[tag] = self.tagged(ahead, ctx)
        default = self.tagged(ahead, ctx) if rng.random() < 0.4 else None
        node = UnionLA(ahead, Pred(f'o.{ctx.name}.tag', ()), result_map, default)
        node.spare_tags = tags[n:]
        if default is None and rng.random() < 0.3:
            pass
        return node

    def tagged(self, ahead, ctx):
        sub = self.p.but(max_fields=2, inherit=0.0, lookahead=0,
                         consume=self.p.consume if ctx.last else 0.0)
        gen = SchemaGen(self.rng, sub)
        gen.serial = self.serial
        cd = gen.class_def(max(0, ctx.depth - 2), prefix='R', first=('tag', ahead), bo=self.bo)
        self.serial = gen.serial
        return Nest(cd)

    def make_self(self, ctx):
        self.uses_self = True
        rng = self.rng
        if ctx.in_array:
            return SelfRef()
        ctrl = [n for n, node in ctx.earlier if getattr(node, 'ctrl', False)]
        if not ctrl:
            return Arr('uint8', self.size_type() if rng.random() < 0.3 else None, SelfRef())
        n = ctrl[0]
        r = rng.random()
        if r < 0.35:
            inner = SelfRef() if rng.random() < 0.6 else Tup((Basic('uint8'), SelfRef()))
            return Cond(inner, Pred(f'o.{n} > {rng.randint(2, 5)}', ()), None)
        if r < 0.65 and not ctx.in_union:
            return UnionLB(Pred(f'o.{n} > {rng.randint(2, 5)}', ()),
                           {True: SelfRef(), False: Basic('uint8')}, None)
        item = SelfRef() if rng.random() < 0.6 else Tup((DynChar('uint8'), SelfRef()))
        return Arr(self.size_type(), self.size_type() if rng.random() < 0.4 else None, item)

    def make_custom(self, ctx):
        rng = self.rng
        ctrl = [n for n, node in ctx.earlier
                if isinstance(node, Basic) and node.fmt in 'bBhHiIqQ']
        kinds = ['VarInt', 'LazyVarInt', 'OrderMark'] + (['XorByte'] if ctrl else [])
        kind = rng.choice(kinds)
        if rng.random() < self.p.probes:
            kind = 'Probe'
        arg = rng.choice(ctrl) if kind == 'XorByte' else None
        node = Custom(kind, arg, direct=ctx.field and rng.random() < 0.3)
        if kind == 'Probe':
            node.half = rng.choice((None, None, 'pack', 'unpack'))
        return node

    # ---- classes
    def field_names(self, n, taken=()):
        names = [x for x in NAMES if x not in taken]
        if n > 20:
            names += [f'member{i}' for i in range(n) if f'member{i}' not in taken]
        self.rng.shuffle(names)
        return names[:n]

    def class_def(self, depth=None, prefix='C', first=None, bo=None, base=None, n=None,
                  mode=None, earlier=(), taken=(), allow_self=None):
        rng = self.rng
        depth = self.p.depth if depth is None else depth
        self.bo = bo = rng.choice(self.p.bos) if bo is None else bo
        name = f'{prefix}{self.serial}'
        self.serial += 1
        n = rng.randint(0 if rng.random() < 0.1 else 1, self.p.max_fields) if n is None else n
        style = 'plain'
        if base is None and rng.random() < self.p.styles:
            style = rng.choice(('dataclass', 'custom_init'))
        names = self.field_names(n + 3, taken)
        body = []
        earlier = list(earlier)
        w = self.p.weights
        if first is not None:
            body.append(first)
            earlier.append(first)
            names = [x for x in names if x != first[0]]
        wants_ctrl = w['cond'] + w['lookback'] + w['self'] > 0 and depth > 0
        use_self = w['self'] > 0 and first is None and depth > 0
        if wants_ctrl and rng.random() < 0.75:
            node = Basic('uint8')
            node.ctrl = True
            nm = names.pop()
            body.append((nm, node))
            earlier.append((nm, node))
        has_final = False
        for i in range(n):
            nm = names.pop()
            last = i == n - 1
            ctx = Ctx(depth, tuple(earlier), last=last, field=True, name=nm,
                      no_self=not use_self)
            node = self.hint(ctx)
            again = [nd for _, nd in earlier[first is not None:]
                     if nd.children() and not isinstance(nd, UnionLA)]
            if again and rng.random() < 0.08:
                node = rng.choice(again)
            if node.final and not last:
                node = self.make_basic(ctx)
            if style == 'dataclass' and not node.nvals:
                node = self.make_basic(ctx)
            if node.nvals == 0:
                nm = '_' if rng.random() < 0.8 else nm
            body.append((nm, node))
            if node.nvals:
                earlier.append((nm, node))
            has_final |= node.final
            if style == 'plain' and rng.random() < self.p.raw:
                body.append(self.raw_hint(i))
        if has_final and self.has_self(body):
            # Not a sensible schema: the nested object takes all of the data
            body = [(nm, nd) for nm, nd in body if not nd_final(nd)]
        cd = ClassDef(name, body, bo, base=base, style=style, mode=mode)
        finish(cd)
        return cd

    def has_self(self, body):
        return any(isinstance(nd, Node) and any(isinstance(s, SelfRef) for s in build.walk_local(nd))
                   for _, nd in body)

    def raw_hint(self, i):
        rng = self.rng
        return (f'raw{i}_{rng.randrange(1000)}', Raw(rng.choice((
            'int', 'str', 'ClassVar[int]', 'list', 'Optional[int]', 'ClassVar[uint8]', 'Any',
            'tuple[int, ...]', 'Union[int, str]', 'tuple[uint8, int]', 'None',
            'Annotated[int, "doc"]', 'ClassVar[array[Header[2], uint8]]', 'dict[str, uint8]',
            'list[uint8]', 'type', 'tuple[uint8, ...]',
        ))))

    def root(self):
        """A class, possibly with base classes."""
        rng = self.rng
        cd = self.class_def()
        if rng.random() < self.p.inherit and cd.style == 'plain':
            for _ in range(rng.choice((1, 1, 2))):
                cd = self.derive(cd)
        return cd

    def derive(self, base):
        rng = self.rng
        mode = None
        bo = base.bo_name
        if rng.random() < 0.3:
            mode = 'OVERRIDE'
            bo = rng.choice(self.p.bos)
        elif rng.random() < 0.3:
            mode = 'STRICT'
        used = used_names(base)
        body = []
        # Redefine members nobody refers to
        for n, node in list(base.fields):
            if n == '_' or n in used or rng.random() > 0.35 or not node.nvals:
                continue
            if rng.random() < 0.35:
                body.append((n, Raw(rng.choice(('None', 'int', 'str')))))
            else:
                new = SchemaGen(rng, self.p).make_basic(None)
                body.append((n, new))
        name = f'D{self.serial}'
        self.serial += 1
        if not base.final:
            taken = {n for n, _ in base.slots.values()}
            earlier = [(n, nd) for n, nd in base.fields
                       if nd.nvals and n not in {b for b, _ in body}]
            extra = SchemaGen(rng, self.p.but(styles=0.0, raw=0.0, self=0))
            extra.serial = self.serial
            new = extra.class_def(bo=bo, taken=taken, earlier=tuple(earlier),
                                  n=rng.randint(0, 3))
            self.serial = extra.serial
            if not (new.final and base_has_self(base)):
                body += new.body
        rng.shuffle(body) if not any(_refers(nd) for _, nd in body) else None
        if any(isinstance(nd, Node) and nd.final for _, nd in body):
            body = [b for b in body if not nd_final(b[1])]
        cd = ClassDef(name, body, bo, base=base, mode=mode)
        finish(cd)
        return cd


def base_has_self(cd):
    return any(isinstance(s, SelfRef) for _, nd in cd.fields for s in build.walk_local(nd))


def _refers(nd):
    return isinstance(nd, Node) and any(
        hasattr(s, 'pred') or isinstance(s, Custom) for s in build.walk_local(nd)
    )


def nd_final(nd):
    return isinstance(nd, Node) and nd.final


def used_names(cd):
    """Members which conditions, deciders, ... of the class refer to"""
    text = ' '.join(
        (s.pred.expr if hasattr(s, 'pred') else str(getattr(s, 'arg', '')))
        for _, nd in cd.fields for s in build.walk_local(nd)
    )
    return {n for n in cd.attrs if f'o.{n}' in text or n in text.split()}


def finish(cd):
    build.set_pred_fields(cd)
    # Controlling member values which end a recursion
    cd.stop = any(
        isinstance(s, SelfRef) for _, nd in cd.fields for s in build.walk_local(nd)
    )


class Skip(Exception):
    """No value of the wanted kind."""


def check_lib_default(node, value):
    """Defaults are created at class creation, so no instance of the class
    being defined can be one."""
    if any(isinstance(s, SelfRef) for s in build.walk_local(node)):
        raise Skip


class ValueGen:
    """Draws values for schemas."""

    def __init__(self, rng, profile=None, depth=4, big=0.02):
        self.rng = rng
        self.depth = depth
        self.big = big
        self.room = 200000  # bytes, after which no more long strings
        self.budget = 150  # objects, after which the recursion is to end

    def length(self):
        rng = self.rng
        if rng.random() < self.big:
            return rng.choice((127, 128, 129, 254, 255, 256, 257, 511, 512, 513))
        return rng.choice((0, 0, 1, 1, 2, 3, 4, rng.randint(0, 12)))

    def bytes(self, n=None, avoid=b''):
        rng = self.rng
        n = self.length() if n is None else n
        self.room -= n
        style = rng.random()
        if style < 0.5:
            out = rng.randbytes(n)
        elif style < 0.7:
            out = bytes(rng.choices(b'abcXYZ 09', k=n))
        elif style < 0.85:
            out = bytes(rng.choices((0, 0xFF, 0x80, 1, 0x7F), k=n))
        else:
            out = bytes(n)
        for a in avoid:
            out = out.replace(bytes((a,)), bytes(((a + 1) & 0xFF,)))
        return out

    def text(self, encoding, limit=None, avoid=''):
        rng = self.rng
        n = min(self.length(), 40)
        pool = {
            'ascii': 'abcXYZ 09~\x7f', 'latin-1': 'abcXYZé\xff\x80 09', 'cp1252': 'abcXYZé€ 09',
            'CodecRot': 'abcXYZé\xff\x80 09',
        }.get(encoding, 'abcXYZ 09éß漢字😀\u2028')
        out = ''.join(rng.choice(pool) for _ in range(n))
        if rng.random() < 0.08:
            out = out[: n // 2] + '\0' + out[n // 2 :] if '\0' not in avoid else out
        if rng.random() < 0.04 and '\0' not in avoid:
            out += '\0'
        for a in avoid:
            out = out.replace(a, '')
        return out

    def int(self, name):
        lo, hi = INT_RANGE[name]
        rng = self.rng
        r = rng.random()
        if r < 0.35:
            return rng.choice((lo, hi, 0, 1, max(lo, -1), hi - 1, lo + 1, hi // 2))
        if r < 0.6:
            return rng.randint(max(lo, -20), min(hi, 40))
        return rng.randint(lo, hi)

    def float(self, name):
        fmt = Basic.kinds[name][0]
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return rng.choice((0.0, -0.0, 1.0, -1.5, float('inf'), float('-inf'), float('nan'),
                               0.1, 65504.0, 2.0**-24))
        size = struct.calcsize('<' + fmt)
        if r < 0.8:
            return struct.unpack('<' + fmt, bytes(rng.randrange(256) for _ in range(size)))[0]
        return rng.uniform(-60000, 60000)

    def value(self, node, o):
        """`o`: the (partial) object the value is for"""
        rng = self.rng
        if isinstance(node, SerAs):
            return self.value(node.base, o)
        if isinstance(node, Basic):
            if getattr(node, 'ctrl', False):
                return rng.randrange(8)
            if node.typ is bool:
                return rng.random() < 0.5
            if node.typ is int:
                return self.int(node.name)
            return self.float(node.name)
        if isinstance(node, Pascal):
            return self.bytes(rng.randint(0, max(0, min(node.n - 1, 255))))
        if isinstance(node, CharN):
            r = rng.random()
            n = node.n if r < 0.8 else rng.randint(0, node.n)
            return self.bytes(n)
        if isinstance(node, DynChar):
            n = self.length()
            return self.bytes(min(n, 255) if node.size == 'uint8' else n)
        if isinstance(node, NetChar):
            if rng.random() < 0.05 and self.room > 0:
                return self.bytes(rng.choice((127, 128, 255, 256, 16383, 16384, 0x7FFF)))
            return self.bytes()
        if isinstance(node, TermChar):
            out = self.bytes(avoid=node.term)
            if rng.random() < 0.1:
                out += node.term
            return out
        if isinstance(node, ConsumeChar):
            return self.bytes()
        if isinstance(node, Uni):
            return self.uni(node)
        if isinstance(node, Tup):
            return tuple(self.value(i, o) for i in node.items if i.nvals)
        if isinstance(node, Arr):
            return self.array(node, o)
        if isinstance(node, Nest):
            return self.rec(node.cd)
        if isinstance(node, SelfRef):
            if self.depth <= 0 or o is None:
                raise Skip
            return self.rec(o.cd)
        if isinstance(node, Cond):
            if o is None:
                raise Skip
            if node.pred(o):
                return self.value(node.item, o)
            if rng.random() < 0.7:
                return node.default
            return self.value(node.item, o)
        if isinstance(node, UnionLA):
            return self.ahead(node) if node.draw is None else node.draw(self, o)
        if isinstance(node, UnionLB):
            if o is None:
                raise Skip
            try:
                target = node.choose(node.pred(o))
            except RefError:
                raise Skip from None
            return self.value(target, o)
        if isinstance(node, Custom):
            if node.flavour in ('VarInt', 'LazyVarInt'):
                return rng.choice((0, 1, 127, 128, 300, rng.getrandbits(30)))
            if node.flavour in ('XorByte', 'Probe'):
                return rng.randrange(256)
            return self.bytes(min(self.length(), 255))
        raise AssertionError(node)

    def ahead(self, node):
        rng = self.rng
        options = list(node.result_map.items())
        if node.default is not None and node.spare_tags and rng.random() < 0.4:
            options = [(rng.choice(node.spare_tags), node.default)]
        tag, target = rng.choice(options)
        rec = self.rec(target.cd, tag=tag)
        return rec

    def uni(self, node):
        rng = self.rng
        base = node.base
        avoid = ''
        if isinstance(base, TermChar):
            avoid = base.term.decode('latin-1')
        s = self.text(node.encoding, avoid=avoid)
        try:
            node.encode(s)
        except RefError:
            s = s.encode('ascii', 'ignore').decode()
        if isinstance(base, CharN):
            for _ in range(60):
                if not s or len(node.encode(s)) <= base.n:
                    break
                s = s[:-1]
        elif isinstance(base, DynChar) and base.size == 'uint8':
            while len(node.encode(s)) > 255:
                s = s[: len(s) // 2]
        return s

    def array(self, node, o):
        rng = self.rng
        if isinstance(node.count, int):
            n = node.count
        else:
            n = self.length()
            heavy = not isinstance(node.item, (Basic, CharN, SerAs))
            if heavy:
                n = min(n, 4)
            if node.count == 'uint8':
                n = min(n, 255)
            if node.size == 'uint8':
                n = min(n, 8)
        has_self = any(isinstance(s, SelfRef) for s in build.walk_local(node.item))
        if has_self:
            n = min(n, 2)
            if self.depth <= 0:
                n = 0
        return [self.value(node.item, o) for _ in range(n)]

    def rec(self, cd, tag=None):
        rng = self.rng
        self.budget -= 1
        if self.budget < -2000:
            raise Skip
        outer = self.depth
        self.depth = self.depth - 1 if self.budget > 0 else 0
        try:
            for attempt in range(12):
                rec = Rec(cd)
                try:
                    for n, node in cd.named():
                        if n == 'tag' and tag is not None:
                            v = tag
                        elif getattr(node, 'ctrl', False) and cd.stop and (
                            self.depth <= 0 or rng.random() < 0.5
                        ):
                            v = rng.choice((0, 0, 1, 2))
                        else:
                            v = self.value(node, rec)
                        rec.vals[n] = v
                    return rec
                except Skip:
                    continue
            raise Skip
        finally:
            self.depth = outer
