"""Schema model and reference codec.

A *schema* is a small AST of hint nodes and class definitions.  Each node knows
how to print itself as the hint a user would write, how to draw values, how to
turn a model value into the value a user would assign, and, independently of
/repo, which bytes the value must become (`enc`) and which value given bytes
must become (`dec`).

The reference codec is written from the README: consecutive "basic" types form
one `struct` format of the class's byte order; everything else is packed one
after the other.  It trusts the stdlib `struct` module and Python's codecs, and
nothing of /repo.
"""

from __future__ import annotations

import struct

BYTE_ORDERS = {
    'DEFAULT': '',
    'LITTLE_ENDIAN': '<',
    'LE': '<',
    'BIG_ENDIAN': '>',
    'BE': '>',
    'NATIVE_STANDARD': '=',
    'NATIVE_NATIVE': '@',
    'NETWORK': '!',
}
BO_NAMES = ('DEFAULT', 'LE', 'BE', 'NATIVE_STANDARD', 'NATIVE_NATIVE', 'NETWORK')

SIZE_TYPES = {'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'uint64': 'Q'}
SIZE_MAX = {'uint8': 0xFF, 'uint16': 0xFFFF, 'uint32': 2**32 - 1, 'uint64': 2**64 - 1}


class RefError(Exception):
    """The reference rejects this value / these bytes."""


class Mismatch(Exception):
    """A value of the library has not the type (or form) the hint promises."""


class Rec:
    """Model of a Structured object: class definition and field values."""

    __slots__ = ('cd', 'vals', 'moved')

    def __init__(self, cd, vals=None):
        object.__setattr__(self, 'cd', cd)
        object.__setattr__(self, 'vals', {} if vals is None else vals)
        # Name of the byte order the object has got by with_byte_order()
        object.__setattr__(self, 'moved', None)

    def __getattr__(self, name):
        try:
            # NOTE: 'vals' itself is looked up here by copy and pickle.
            return object.__getattribute__(self, 'vals')[name]
        except KeyError:
            raise AttributeError(name) from None

    def __repr__(self):
        inner = ', '.join(f'{k}={v!r}' for k, v in self.vals.items())
        return f'{self.cd.name}({inner})'


def same(a, b) -> bool:
    """Strict equality: same types, NaN equals NaN, signed zeros differ."""
    if type(a) is not type(b):
        return False
    if type(a) is float:
        return struct.pack('<d', a) == struct.pack('<d', b) or (a != a and b != b)
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if type(a) is Rec:
        return (
            a.cd is b.cd
            and list(a.vals) == list(b.vals)
            and all(same(x, b.vals[k]) for k, x in a.vals.items())
        )
    return a == b


class Reader:
    __slots__ = ('data', 'pos')

    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos

    def take(self, n):
        end = self.pos + n
        if n < 0 or end > len(self.data):
            raise RefError(f'need {n} bytes at {self.pos}, have {len(self.data)}')
        out = self.data[self.pos : end]
        self.pos = end
        return out


def st_pack(fmt, args):
    try:
        return struct.pack(fmt, *args)
    except (struct.error, OverflowError, TypeError, ValueError) as e:
        raise RefError(f'struct {fmt!r}: {e}') from None


# ---------------------------------------------------------------------- nodes


def common(c, text):
    """Source of an object which hints may share."""
    return c.common(text) if hasattr(c, 'common') else text


class Node:
    struct = False
    nvals = 1
    final = False
    kind = '?'
    note = None  # something else than a serializer to annotate the hint with

    def __init_subclass__(cls, **kwargs):
        super().__init_subclass__(**kwargs)
        if 'src' in cls.__dict__:
            plain = cls.src

            def src(self, c):
                text = plain(self, c)
                return text if self.note is None else f'Annotated[{text}, {self.note}]'

            cls.src = src

    def src(self, c) -> str:
        raise NotImplementedError

    def sig(self) -> str:
        return self.kind

    def children(self):
        return ()

    def walk(self):
        yield self
        for child in self.children():
            yield from child.walk()

    # Reference codec, for nodes which are not part of a struct run
    def enc(self, v, bo, o) -> bytes:
        return enc_seq((self,), (v,) if self.nvals else (), bo, o)

    def dec(self, rd, bo, o):
        vals = dec_seq((self,), rd, bo, o)
        return vals[0] if vals else None

    # Conversion between model values and the values a user handles
    def lib(self, v, env):
        return v

    def unlib(self, x, env):
        raise NotImplementedError


def enc_seq(nodes, vals, bo, o) -> bytes:
    out = bytearray()
    fmt = ''
    args = []
    vals = iter(vals)
    for n in nodes:
        if n.struct:
            fmt += n.fmt
            if n.nvals:
                args.append(n.raw(next(vals)))
            continue
        if fmt:
            out += st_pack(bo + fmt, args)
            fmt, args = '', []
        out += n.enc(next(vals) if n.nvals else None, bo, o)
    if fmt:
        out += st_pack(bo + fmt, args)
    return bytes(out)


def dec_seq(nodes, rd, bo, o, sink=None):
    """Decode nodes one after another.  `sink(i, value)` sees every value as soon
    as it is available."""
    vals = []
    run = []

    def flush():
        fmt = bo + ''.join(n.fmt for n in run)
        raws = iter(struct.unpack(fmt, rd.take(struct.calcsize(fmt))))
        for n in run:
            if n.nvals:
                add(n.unraw(next(raws)))
        run.clear()

    def add(v):
        vals.append(v)
        if sink is not None:
            sink(len(vals) - 1, v)

    for n in nodes:
        if n.struct:
            run.append(n)
            continue
        if run:
            flush()
        v = n.dec(rd, bo, o)
        if n.nvals:
            add(v)
    if run:
        flush()
    return vals


def expect(x, typ, what):
    if type(x) is not typ:
        raise Mismatch(f'{what}: expected {typ.__name__}, got {type(x).__name__}: {x!r}')
    return x


class Basic(Node):
    """bool8, int*, uint*, float*"""

    struct = True
    kinds = {
        'bool8': ('?', bool), 'int8': ('b', int), 'uint8': ('B', int),
        'int16': ('h', int), 'uint16': ('H', int), 'int32': ('i', int),
        'uint32': ('I', int), 'int64': ('q', int), 'uint64': ('Q', int),
        'float16': ('e', float), 'float32': ('f', float), 'float64': ('d', float),
    }

    def __init__(self, name, wrap=0):
        self.name = self.kind = name
        self.fmt, self.typ = self.kinds[name]
        self.wrap = wrap

    def src(self, c):
        if self.wrap == 1:
            return f'Annotated[{self.typ.__name__}, {self.name}]'
        if self.wrap == 2:
            return f'Annotated[Annotated[{self.typ.__name__}, {self.name}], "doc"]'
        return self.name

    def raw(self, v):
        return v

    def unraw(self, v):
        return v

    def unlib(self, x, env):
        return expect(x, self.typ, self.name)


class CharN(Node):
    struct = True

    def __init__(self, n):
        self.n = n
        self.fmt = f'{n}s'
        self.kind = 'char[n]'

    def sig(self):
        return f'char[{self.n}]'

    def src(self, c):
        return f'char[{self.n}]'

    def raw(self, v):
        return v

    def unraw(self, v):
        return v

    def unlib(self, x, env):
        return expect(x, bytes, 'char')


class Pascal(CharN):
    def __init__(self, n):
        self.n = n
        self.fmt = f'{n}p'
        self.kind = 'pascal'

    def sig(self):
        return f'pascal[{self.n}]'

    def src(self, c):
        return f'pascal[{self.n}]'


class Pad(Node):
    struct = True
    nvals = 0
    kind = 'pad'

    def __init__(self, n):
        self.n = n
        self.fmt = f'{n}x'

    def sig(self):
        return f'pad[{self.n}]'

    def src(self, c):
        return f'pad[{self.n}]'


class SerAs(Node):
    """Annotated[Custom, SerializeAs(basic)], possibly with_factory"""

    struct = True
    kind = 'SerializeAs'
    log = None  # creations while decoding, if wanted

    def __init__(self, base, flavour, factory=False):
        self.base = base  # Basic / CharN / Pascal
        self.flavour = flavour  # index of the custom class
        self.factory = factory  # whether; or the number of one of many
        self.fmt = base.fmt

    def sig(self):
        return f'SerAs({self.base.sig()},{int(self.factory)})'

    def children(self):
        return (self.base,)

    @property
    def cls_name(self):
        typ = getattr(self.base, 'typ', bytes).__name__
        return f'Custom{typ.capitalize()}{self.flavour}'

    def src(self, c):
        if self.factory:
            how = 'make' if self.factory is True else f'factory({self.factory})'
            ser = f'SerializeAs({self.base.src(c)}).with_factory({self.cls_name}.{how})'
        else:
            ser = f'SerializeAs({self.base.src(c)})'
        return f'Annotated[{self.cls_name}, {common(c, ser)}]'

    def raw(self, v):
        return self.base.raw(v)

    @property
    def made(self):
        if not self.factory:
            return 'init'
        return 'factory' if self.factory is True else f'factory {self.factory}'

    def unraw(self, v):
        v = self.base.unraw(v)
        if SerAs.log is not None:
            SerAs.log.append((self.cls_name, self.made, v))
        return v

    def lib(self, v, env):
        cls = env.name(self.cls_name)
        if not isinstance(v, getattr(self.base, 'typ', bytes)):
            return v
        return cls.make(v) if self.factory else cls(v)

    def unlib(self, x, env):
        cls = env.name(self.cls_name)
        if type(x) is not cls:
            raise Mismatch(f'{self.sig()}: expected {cls.__name__}, got {x!r}')
        if x.made != self.made:
            raise Mismatch(f'{self.sig()}: created by {x.made}, expected {self.made}')
        return self.base.unlib(x.value, env)


class DynChar(Node):
    def __init__(self, size):
        self.size = size
        self.kind = f'char[{size}]'

    def src(self, c):
        return f'char[{self.size}]'

    def enc(self, v, bo, o):
        check_bytes(v)
        return st_pack(bo + SIZE_TYPES[self.size], (len(v),)) + v

    def dec(self, rd, bo, o):
        code = bo + SIZE_TYPES[self.size]
        (n,) = struct.unpack(code, rd.take(struct.calcsize(code)))
        return rd.take(n)

    def unlib(self, x, env):
        return expect(x, bytes, self.kind)


def check_bytes(v):
    if not isinstance(v, bytes):
        raise RefError(f'not bytes: {v!r}')


class NetChar(Node):
    kind = 'char[NET]'

    def src(self, c):
        return 'char[NET]'

    def enc(self, v, bo, o):
        check_bytes(v)
        n = len(v)
        if n < 0x80:
            return bytes((n,)) + v
        if n > 0x7FFF:
            raise RefError('.NET string too long')
        # 7 low bits with the continuation bit, then the 8 high bits
        return struct.pack('@H', 0x80 | (n & 0x7F) | (n >> 7) << 8) + v

    def dec(self, rd, bo, o):
        (n,) = rd.take(1)
        if n >= 0x80:
            rd.pos -= 1
            (mark,) = struct.unpack('@H', rd.take(2))
            n = (mark & 0x7F) | (mark >> 8) << 7
        return rd.take(n)

    def unlib(self, x, env):
        return expect(x, bytes, self.kind)


class TermChar(Node):
    def __init__(self, term=b'\0', alias=False):
        self.term = term
        self.alias = alias
        self.kind = 'char[term]'

    def sig(self):
        return f'char[{self.term!r}]'

    def src(self, c):
        if self.alias and self.term == b'\0':
            return 'null_char'
        return f'char[{self.term!r}]'

    def enc(self, v, bo, o):
        check_bytes(v)
        return v if v.endswith(self.term) else v + self.term

    def dec(self, rd, bo, o):
        end = rd.data.find(self.term, rd.pos)
        if end < 0:
            raise RefError('unterminated')
        out = rd.take(end - rd.pos)
        rd.pos += 1
        return out

    def unlib(self, x, env):
        return expect(x, bytes, self.kind)


class ConsumeChar(Node):
    kind = 'char[inf]'
    final = True

    def src(self, c):
        return 'char[math.inf]'

    def enc(self, v, bo, o):
        check_bytes(v)
        return v

    def dec(self, rd, bo, o):
        return rd.take(len(rd.data) - rd.pos)

    def unlib(self, x, env):
        return expect(x, bytes, self.kind)


class Uni(Node):
    """unicode[...] around one of the char nodes"""

    def __init__(self, base, encoding='utf8', alias=False, explicit=True):
        self.base = base
        self.encoding = encoding
        self.alias = alias
        self.explicit = explicit
        self.final = base.final
        self.kind = f'unicode:{base.kind}'

    def sig(self):
        return f'unicode({self.base.sig()},{self.encoding})'

    def children(self):
        return (self.base,)

    def src(self, c):
        if self.alias:
            return 'null_unicode'
        arg = self.base.src(c)
        arg = "b'\\0'" if arg == 'null_char' else arg[len('char[') : -1]
        if self.encoding.startswith('Codec'):
            return f'unicode[{arg}, {self.encoding}]'
        if self.encoding == 'utf8' and not self.explicit:
            return f'unicode[{arg}]'
        return f'unicode[{arg}, {self.encoding!r}]'

    def encode(self, s):
        if not isinstance(s, str):
            raise RefError(f'not str: {s!r}')
        try:
            if self.encoding.startswith('Codec'):
                return CODECS[self.encoding][0](s)
            return s.encode(self.encoding)
        except UnicodeError as e:
            raise RefError(str(e)) from None

    def decode(self, b):
        try:
            if self.encoding.startswith('Codec'):
                return CODECS[self.encoding][1](b).rstrip('\0')
            return b.decode(self.encoding).rstrip('\0')
        except UnicodeError as e:
            raise RefError(str(e)) from None

    def enc(self, v, bo, o):
        return self.base.enc(self.encode(v), bo, o)

    def dec(self, rd, bo, o):
        return self.decode(self.base.dec(rd, bo, o))

    def unlib(self, x, env):
        return expect(x, str, self.kind)


# Reference of the EncoderDecoder classes in userlib
CODECS = {
    'CodecRot': (
        lambda s: bytes((b + 13) & 0xFF for b in s.encode('latin-1')),
        lambda b: bytes((x - 13) & 0xFF for x in b).decode('latin-1'),
    ),
    'CodecHex': (
        lambda s: s.encode('utf8').hex().encode('ascii'),
        lambda b: _unhex(b),
    ),
}


def _unhex(b):
    try:
        return bytes.fromhex(b.rstrip(b'\0').decode('ascii')).decode('utf8')
    except UnicodeError:
        raise
    except ValueError as e:
        raise RefError(str(e)) from None


class Tup(Node):
    kind = 'tuple'

    def __init__(self, items, old=False):
        self.items = tuple(items)
        self.old = old
        self.final = bool(self.items) and self.items[-1].final

    def sig(self):
        return 'tuple(' + ','.join(i.sig() for i in self.items) + ')'

    def children(self):
        return self.items

    def src(self, c):
        name = 'Tuple' if self.old else 'tuple'
        return f'{name}[' + ', '.join(i.src(c) for i in self.items) + ']'

    def enc(self, v, bo, o):
        n = sum(i.nvals for i in self.items)
        if not isinstance(v, (tuple, list)) or len(v) != n:
            raise RefError(f'tuple of {n} values expected: {v!r}')
        return enc_seq(self.items, v, bo, o)

    def dec(self, rd, bo, o):
        return tuple(dec_seq(self.items, rd, bo, o))

    def lib(self, v, env):
        if type(v) is not tuple:
            return v
        nodes = [i for i in self.items if i.nvals]
        if len(nodes) != len(v):
            return v
        return tuple(n.lib(x, env) for n, x in zip(nodes, v))

    def unlib(self, x, env):
        expect(x, tuple, self.sig())
        nodes = [i for i in self.items if i.nvals]
        if len(x) != len(nodes):
            raise Mismatch(f'{self.sig()}: {len(nodes)} items expected, got {x!r}')
        return tuple(n.unlib(v, env) for n, v in zip(nodes, x))


class Arr(Node):
    kind = 'array'

    def __init__(self, count, size, item, wrap=False):
        self.count = count  # int or name of a size type
        self.size = size  # None or name of a size type
        self.item = item
        self.wrap = wrap

    def sig(self):
        return f'array({self.count},{self.size},{self.item.sig()})'

    def children(self):
        return (self.item,)

    def src(self, c):
        header = f'{self.count}' if self.size is None else f'{self.count}, {self.size}'
        text = f'array[Header[{header}], {self.item.src(c)}]'
        return f'Annotated[list, {text}]' if self.wrap else text

    def header(self, bo, count, size):
        fmt, args = '', []
        if not isinstance(self.count, int):
            fmt, args = SIZE_TYPES[self.count], [count]
        if self.size is not None:
            fmt, args = fmt + SIZE_TYPES[self.size], args + [size]
        return st_pack(bo + fmt, args) if fmt else b''

    def enc(self, v, bo, o):
        if not isinstance(v, list):
            raise RefError(f'not a list: {v!r}')
        if isinstance(self.count, int) and len(v) != self.count:
            raise RefError('wrong static length')
        body = b''.join(self.item.enc(x, bo, o) for x in v)
        return self.header(bo, len(v), len(body)) + body

    def dec(self, rd, bo, o):
        fmt = ''
        if not isinstance(self.count, int):
            fmt = SIZE_TYPES[self.count]
        if self.size is not None:
            fmt += SIZE_TYPES[self.size]
        header = struct.unpack(bo + fmt, rd.take(struct.calcsize(bo + fmt)))
        count = self.count if isinstance(self.count, int) else header[0]
        start = rd.pos
        out = []
        for _ in range(count):
            out.append(self.item.dec(rd, bo, o))
            if len(out) > 1000 and rd.pos == start or len(out) > 1 << 18:
                raise RefError('reference gives up: too many items')
        if self.size is not None and header[-1] != rd.pos - start:
            raise RefError('data size mismatch')
        return out

    def lib(self, v, env):
        if type(v) is not list:
            return v
        return [self.item.lib(x, env) for x in v]

    def unlib(self, x, env):
        expect(x, list, self.sig())
        return [self.item.unlib(v, env) for v in x]


class Nest(Node):
    kind = 'Structured'

    def __init__(self, cd, generic_args=None):
        self.cd = cd
        self.final = cd is not None and cd.final
        # (generic class definition, argument nodes) for `Inner[uint8]` hints
        self.generic_args = generic_args

    def sig(self):
        return self.cd.sig()

    def children(self):
        return tuple(n for _, n in self.cd.fields)

    def src(self, c):
        if self.generic_args is not None:
            gcd, args = self.generic_args
            c.need(gcd)
            if self.cd is not None:
                c.need(self.cd)
            return f'{gcd.name}[' + ', '.join(a.src(c) for a in args) + ']'
        c.need(self.cd)
        return self.cd.name

    def enc(self, v, bo, o):
        if not isinstance(v, Rec):
            raise RefError(f'not a Structured object: {v!r}')
        return v.cd.enc(v)

    def dec(self, rd, bo, o):
        return self.cd.dec(rd)

    def lib(self, v, env):
        return env.obj(v) if isinstance(v, Rec) else v

    def unlib(self, x, env):
        return env.rec(x, self.cd)


class SelfRef(Node):
    kind = 'Self'

    def __init__(self, cd=None):
        self.cd = cd  # set by the class definition

    def src(self, c):
        return 'Self'

    def enc(self, v, bo, o):
        if not isinstance(v, Rec):
            raise RefError(f'not a Structured object: {v!r}')
        return v.cd.enc(v)

    def dec(self, rd, bo, o):
        # The class being unpacked, which might be a subclass
        return o.cd.dec(rd)

    def lib(self, v, env):
        return env.obj(v) if isinstance(v, Rec) else v

    def unlib(self, x, env):
        return env.rec(x, None if env.current is None else env.current.cd)


class Pred:
    """An expression over the earlier members, as used by conditions and
    deciders.  `truthy` is how the result is presented to the library."""

    def __init__(self, expr, fields, truthy='plain', text=None):
        self.expr = expr
        self.text = text  # source of a callable to use, which is not monitored
        self.fields = fields
        self.placed = False  # whether `fields` is known
        self.truthy = truthy
        self.code = compile(expr, '<pred>', 'eval')
        self.id = None
        self.watch = None

    def __call__(self, o):
        if self.watch is not None:
            return self.watch(o)
        return eval(self.code, {'len': len}, {'o': o})

    def src(self, c):
        if self.text is not None:
            return self.text
        pid = c.pred(self)
        return f'lambda o, H=H: H.pred({pid}, o, {self.expr})'


class Cond(Node):
    kind = 'Condition'

    def __init__(self, item, pred, default):
        self.item = item
        self.pred = pred
        self.default = default
        self.nvals = item.nvals
        self.final = item.final

    def sig(self):
        return f'cond({self.item.sig()})'

    def children(self):
        return (self.item,)

    def src(self, c):
        inner = self.item.src(c)
        default = f', {c.const(self.item, self.default)}' if self.nvals else ''
        return f'Annotated[{inner}, {common(c, f"Condition({self.pred.src(c)}{default})")}]'

    def enc(self, v, bo, o):
        return self.item.enc(v, bo, o) if self.pred(o) else b''

    def dec(self, rd, bo, o):
        return self.item.dec(rd, bo, o) if self.pred(o) else self.default

    def lib(self, v, env):
        if v is self.default:
            return env.const_value(self)
        return self.item.lib(v, env)

    def unlib(self, x, env):
        if self.nvals and x is env.const_value(self):
            return self.default
        return self.item.unlib(x, env)


class UnionLB(Node):
    kind = 'Lookback'

    def __init__(self, pred, result_map, default, opt=''):
        self.pred = pred
        self.result_map = result_map  # key -> node
        self.default = default
        self.opt = opt
        self.final = any(n.final for n in self.children())

    def sig(self):
        return 'lookback(' + ','.join(n.sig() for n in self.children()) + ')'

    def children(self):
        nodes = tuple(self.result_map.values())
        return nodes if self.default is None else nodes + (self.default,)

    def union_src(self, c):
        texts = list(dict.fromkeys(n.src(c) for n in self.children()))
        # At least two different types, even if some of these are the same
        if len(texts) < 4:
            texts += [t for t in ('int8', 'uint8') if t not in texts]
        return 'Union[' + ', '.join(texts) + ']'

    def map_src(self, c):
        items = ', '.join(f'{k!r}: {n.src(c)}' for k, n in self.result_map.items())
        default = '' if self.default is None else f', {self.default.src(c)}'
        return '{' + items + '}' + default

    def src(self, c):
        decider = f'LookbackDecider({self.pred.src(c)}, {self.map_src(c)})'
        return f'Annotated[{self.union_src(c)}, {common(c, decider)}]'

    def choose(self, key):
        node = self.result_map.get(key, self.default)
        if node is None:
            raise RefError(f'unmapped {key!r}')
        return node

    def enc(self, v, bo, o):
        return self.choose(self.pred(o)).enc(v, bo, o)

    def dec(self, rd, bo, o):
        return self.choose(self.pred(o)).dec(rd, bo, o)

    def lib(self, v, env):
        node = env.chosen(self)
        return env.lib_any(self, v) if node is None else node.lib(v, env)

    def unlib(self, x, env):
        node = env.chosen(self)
        return env.unlib_any(self, x) if node is None else node.unlib(x, env)


class UnionLA(UnionLB):
    kind = 'Lookahead'
    draw = None  # how to draw values, if not by their `tag`

    def __init__(self, ahead, pred, result_map, default):
        super().__init__(pred, result_map, default)
        self.ahead = ahead

    def sig(self):
        return (
            f'lookahead({self.ahead.sig()};'
            + ','.join(n.sig() for n in self.children())
            + ')'
        )

    def src(self, c):
        decider = (
            f'LookaheadDecider({self.ahead.src(c)}, {self.pred.src(c)}, {self.map_src(c)})'
        )
        return f'Annotated[{self.union_src(c)}, {common(c, decider)}]'

    def dec(self, rd, bo, o):
        start = rd.pos
        key = self.ahead.dec(rd, bo, o)
        rd.pos = start
        return self.choose(key).dec(rd, bo, o)


class Custom(Node):
    """User defined Serializer subclasses (see userlib)."""

    def __init__(self, flavour, arg=None, direct=False):
        self.flavour = flavour
        self.arg = arg
        self.direct = direct
        self.final = flavour == 'Rest'
        self.kind = f'custom:{flavour}'

    half = None  # for probes which are prepared for packing or unpacking only
    uses = None  # how probes are expected to be used, if wanted

    def src(self, c):
        arg = '' if self.arg is None else repr(self.arg)
        if self.flavour == 'Probe':
            self.number = c.pred(self)
            arg = f'{self.number}, H'
        text = f'{(self.half or "").title()}{self.flavour}({arg})'
        return text if self.direct else f'Annotated[Any, {text}]'

    def enc(self, v, bo, o):
        if self.flavour == 'VarInt' or self.flavour == 'LazyVarInt':
            if not isinstance(v, int) or v < 0:
                raise RefError('varint')
            out = bytearray()
            while v > 0x7F:
                out.append(v & 0x7F | 0x80)
                v >>= 7
            out.append(v)
            return bytes(out)
        if self.flavour == 'XorByte':
            key = getattr(o, self.arg)
            if not isinstance(v, int) or not 0 <= v <= 255:
                raise RefError('xorbyte')
            return bytes((v ^ (key & 0xFF),))
        if self.flavour == 'Probe':
            self.use('pack', o)
            if not isinstance(v, int) or not 0 <= v <= 255:
                raise RefError('probe')
            return bytes((v,))
        if self.flavour == 'Rest':
            check_bytes(v)
            return v
        if self.flavour == 'OrderMark':
            check_bytes(v)
            return (b'B' if bo in ('>', '!') else b'L') + bytes((len(v),)) + v
        raise AssertionError

    def dec(self, rd, bo, o):
        if self.flavour == 'VarInt' or self.flavour == 'LazyVarInt':
            n = shift = 0
            while True:
                (b,) = rd.take(1)
                n |= (b & 0x7F) << shift
                shift += 7
                if b < 0x80:
                    return n
        if self.flavour == 'XorByte':
            return rd.take(1)[0] ^ (getattr(o, self.arg) & 0xFF)
        if self.flavour == 'Probe':
            self.use('unpack', o)
            return rd.take(1)[0]
        if self.flavour == 'Rest':
            return rd.take(len(rd.data) - rd.pos)
        if self.flavour == 'OrderMark':
            mark = rd.take(1)
            if mark != (b'B' if bo in ('>', '!') else b'L'):
                raise RefError('order mark')
            return rd.take(rd.take(1)[0])
        raise AssertionError

    id = None
    watch = None

    def use(self, what, o):
        if Custom.uses is not None:
            uses, freeze = Custom.uses
            seen = tuple(freeze(o.vals.get(f, '<missing>')) for f in self.fields)
            uses.append((self.id, what, (what, seen) if self.half in (None, what) else None))

    def unlib(self, x, env):
        return expect(x, bytes if self.flavour in ('OrderMark', 'Rest') else int, self.kind)


# ------------------------------------------------------------ class definitions


class Raw:
    """A hint of the class body which is not serialized (text)."""

    def __init__(self, text):
        self.text = text


class ClassDef:
    """A Structured class.

    body: list of (name, Node | Raw) as written in this class's body.
    base: ClassDef or None.  The effective fields are worked out here, from the
    README's rules for subclassing.
    """

    def __init__(
        self, name, body, bo='DEFAULT', base=None, style='plain', mode=None, doc=None,
        extra=(),
    ):
        self.name = name
        self.body = body
        self.bo_name = bo
        self.bo = BYTE_ORDERS[bo]
        self.base = base
        self.style = style  # plain | dataclass | custom_init
        self.mode = mode
        self.extra = extra  # further source lines in the class body
        self.anon = False  # whether objects might be of an unnamed specialization
        merged = {}
        pads = 0
        if base is not None:
            for key, (n, node) in base.slots.items():
                merged[key] = (n, node)
        for n, node in body:
            if n == '_' and isinstance(node, Node) and is_pad(node):
                key = f'{name} pad {pads}'
                pads += 1
            else:
                key = n
            merged[key] = (n, node)
        self.slots = merged
        self.fields = [(n, node) for n, node in merged.values() if isinstance(node, Node)]
        self.nodes = tuple(node for _, node in self.fields)
        self.attrs = tuple(n for n, node in self.fields if node.nvals)
        self.final = bool(self.nodes) and self.nodes[-1].final
        self.env_key = None

    def sig(self):
        inner = ','.join(node.sig() for node in self.nodes)
        return f'{self.bo or "d"}{{{inner}}}'

    def named(self):
        return [(n, node) for n, node in self.fields if node.nvals]

    def enc(self, rec, bo=None) -> bytes:
        vals = []
        for n in self.attrs:
            if n not in rec.vals:
                raise RefError(f'no value for {n}')
            vals.append(rec.vals[n])
        if bo is None:
            bo = self.bo if rec.moved is None else BYTE_ORDERS[rec.moved]
        return enc_seq(self.nodes, vals, bo, rec)

    def dec(self, rd, bo=None):
        rec = Rec(self)

        def sink(i, v):
            rec.vals[self.attrs[i]] = v

        dec_seq(self.nodes, rd, self.bo if bo is None else bo, rec, sink)
        return rec

    def decode(self, data, pos=0, bo=None):
        rd = Reader(data, pos)
        try:
            rec = self.dec(rd, bo)
        except RecursionError:
            raise RefError('recursion') from None
        return rec, rd.pos - pos

    def classes(self, seen=None):
        """Every class definition reachable from this one."""
        seen = {} if seen is None else seen
        if id(self) in seen:
            return seen
        seen[id(self)] = self
        if self.base is not None:
            self.base.classes(seen)
        for _, node in self.body:
            if isinstance(node, Node):
                for sub in node.walk():
                    if isinstance(sub, Nest):
                        sub.cd.classes(seen)
        return seen


def is_pad(node):
    if isinstance(node, Cond):
        return is_pad(node.item)
    return isinstance(node, Pad)
