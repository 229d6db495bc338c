"""Malformed and truncated data, and failing streams."""

import resource
import time

from .common import *

ID = 'C19'
QUICK = 2
RULE = (
    'For each kind of hint alone and in pairs, and for random classes: every prefix of packed '
    'objects; at every byte, fields of 1, 2, 4 and 8 bytes overwritten with extreme values in both '
    'byte orders; random corruption; reading from streams which raise or fall short at each read, and writing to '
    'streams which raise at each write; each by every route. Monitors: exceptions and values '
    'against the reference (never a value the data does not have), CPU time and address space '
    'of each operation, and that the class packs and unpacks a valid object after failures. '
    'Distinct: schema signature and malformed bytes.'
)
TIME = 2.0  # CPU seconds for an operation on less than 1 kB
SPACE = 192 << 20
_, HARD = resource.getrlimit(resource.RLIMIT_AS)


class Bounded:
    """Limits the address space and watches the CPU time."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        with open('/proc/self/statm') as f:
            used = int(f.read().split()[0]) * resource.getpagesize()
        _, hard = resource.getrlimit(resource.RLIMIT_AS)
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        limit = used + SPACE
        if hard != resource.RLIM_INFINITY:
            limit = min(limit, hard)
        resource.setrlimit(resource.RLIMIT_AS, (limit, hard))
        self.start = time.thread_time()
        return self

    def __exit__(self, kind, value, tb):
        took = time.thread_time() - self.start
        resource.setrlimit(resource.RLIMIT_AS, self.old)
        if kind is None and took > TIME * self.operations:
            raise Violation(f'{self.what} took {took:.1f} s of CPU time')

    operations = 7  # an operation by each route


def watched(case, b, cd, data, what):
    with Bounded(f'unpacking {len(data)} bytes ({what}): {short(data)}'):
        b.unpacking(cd, data, trailing=b'', events=False)
    case.stats.case((cd.sig(), data), None)
    case.stats.hit(what)


EXTREMES = [
    pattern * width if len(pattern) == 1 else pattern
    for width in (1, 2, 4, 8) for pattern in (b'\xff', b'\x00')
] + [
    value.to_bytes(width, order)
    for width in (2, 4, 8) for order in ('little', 'big')
    for value in (1 << 8 * width - 1, (1 << 8 * width - 1) - 1, 1)
] + [b'\x7f', b'\x80', b'\x01', (1 << 40).to_bytes(8, 'little'), (1 << 40).to_bytes(8, 'big'),
     (1 << 28).to_bytes(4, 'little'), (1 << 28).to_bytes(4, 'big')]


def usable(case, env, cd, rec, data):
    """After failures, the class works as before."""
    cls = env.cls(cd)
    o = env.obj(rec)
    stream = io.BytesIO()
    o.pack_write(stream)
    buffer = bytearray(len(data))
    o.pack_into(buffer)
    for got in (o.pack(), stream.getvalue(), bytes(buffer)):
        if got != data:
            raise Violation(f'packed {short(got)} after failures, expected {short(data)}')
    want, _ = cd.decode(data)
    for name, fn in (('create_unpack', lambda: cls.create_unpack(data)),
                     ('create_unpack_from', lambda: cls.create_unpack_from(data)),
                     ('create_unpack_read', lambda: cls.create_unpack_read(io.BytesIO(data)))):
        ok, x = attempt(fn)
        if not ok:
            raise Violation(f'{name} of valid data after failures: {type(x).__name__}: {x}')
        try:
            got = env.rec(x, cd)
        except Mismatch as e:
            raise Violation(f'{name} after failures: {e}') from None
        if not same(got, want):
            raise Violation(f'{name} after failures: got {short(got)}, expected {short(want)}')
    case.stats.hit('usable_after_failures')


def valid(case, cd):
    """Drawn values, and their bytes which are valid to unpack."""
    drawn = draw(case, cd)
    if drawn is None:
        return None
    try:
        cd.decode(drawn[1])
    except RefError:
        return None
    return drawn


def hostile(case, cd, values=1, limit=48, every=1.0):
    rng = case.rng
    env = load(case, cd)
    b = battery(case, env)
    try:
        for _ in range(values):
            drawn = valid(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            if rng.random() < 0.7 and len(data) > 60:
                drawn = valid(case, cd) or drawn
                rec, data = min(drawn, (rec, data), key=lambda d: len(d[1]))
            note(case, cd, rec, data)
            if len(data) < 400:
                for n in range(len(data)):
                    if len(data) < 80 or rng.random() < 80 / len(data):
                        watched(case, b, cd, data[:n], 'prefixes')
            usable(case, env, cd, rec, data)
            spots = list(range(min(len(data), limit)))
            for i in spots:
                for extreme in EXTREMES:
                    if rng.random() > every:
                        continue
                    bad = data[:i] + extreme + data[i + len(extreme):]
                    watched(case, b, cd, bad, 'extreme_fields')
            usable(case, env, cd, rec, data)
            for _ in range(10):
                watched(case, b, cd, b.mutate(data), 'random_corruption')
            usable(case, env, cd, rec, data)
    finally:
        env.unload()


SIZED = [
    leaf for t in SIZE_TYPES for leaf in (
        lambda t=t: DynChar(t),
        lambda t=t: Uni(DynChar(t), 'utf8'),
        lambda t=t: Arr(t, None, Basic('uint8')),
        lambda t=t: Arr(t, None, Basic('float64')),
        lambda t=t: Arr(t, None, Basic('bool8')),
        lambda t=t: Arr(t, None, CharN(3)),
        lambda t=t: Arr(t, None, Pascal(4)),
        lambda t=t: Arr(t, None, SerAs(Basic('int16'), 0)),
        lambda t=t: Arr(t, None, DynChar(t)),
        lambda t=t: Arr(t, t, Basic('int32')),
        lambda t=t: Arr(t, 'uint64', TermChar()),
        lambda t=t: Arr(3, t, NetChar()),
        lambda t=t: Arr(t, None, Tup((Basic('uint8'), DynChar(t)))),
        lambda t=t: Arr(t, t, Arr(t, None, Basic('uint16'))),
        lambda t=t: Arr(t, None, Custom('VarInt')),
        lambda t=t: Tup((DynChar(t), Arr(t, None, Basic('int8')))),
        lambda t=t: Arr(t, None, Nest(simple_class(fresh('Hn'), [('p', Basic('uint8')), ('q', DynChar(t))]))),
        lambda t=t: Arr(t, None, Nest(simple_class(fresh('Hb'), [('p', Basic('uint8')), ('q', Basic('int64'))], 'BE'))),
        lambda t=t: UnionLB(Pred('o.k & 1', ()), {0: DynChar(t), 1: Arr(t, None, Basic('uint32'))}, None),
        lambda t=t: Cond(Arr(t, None, CharN(2)), Pred('o.k & 2', ()), None),
    )
] + list(LEAFS) + [
    lambda: Uni(CharN(8), 'utf-16'), lambda: Uni(TermChar(), 'ascii'), lambda: Uni(NetChar(), 'utf-32-le'),
    lambda: Uni(DynChar('uint8'), 'CodecHex'), lambda: ConsumeChar(), lambda: Uni(ConsumeChar(), 'utf8'),
    lambda: Custom('LazyVarInt'), lambda: Arr('uint8', None, SelfRef()),
    lambda: UnionLB(Pred('o.k & 3', ()), {1: Basic('uint32')}, None),
]


def sized_case(case):
    i = case.index
    k = Basic('uint8')
    k.ctrl = True
    node = SIZED[i % len(SIZED)]()
    fields = [('k', k), ('m', node)]
    if not node.final and case.rng.random() < 0.6:
        fields.append(('z', case.rng.choice(LEAFS)()))
    cd = simple_class('Sized', fields, BO_NAMES[(i + i // len(SIZED)) % len(BO_NAMES)])
    hostile(case, cd, every=1.0 if case.tier == 'thorough' else 0.35, limit=20)


def random_case(case):
    cd = schema(case, Profile(max_fields=4, depth=3, raw=0.0, dynchar=14, array=20, term=8, net=6,
                              uni=10, lookahead=5, pad=2))
    hostile(case, cd, every=0.15, limit=24)


class Failing(io.BytesIO):
    """Fails at the n-th read or write."""

    left = None
    how = None
    done = 0

    def read(self, n=-1):
        self.done += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                if self.how == 'raise':
                    raise OSError('device not ready')
                if n is not None and n > 1:
                    self.left = None
                    return super().read(n - 1)
        return super().read(n)

    def write(self, data):
        self.done += 1
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise OSError('no space left')
        return super().write(data)


def faults_case(case):
    """Streams which fail at each of the reads and writes."""
    rng = case.rng
    cd = schema(case, Profile(max_fields=5, depth=3, raw=0.0, lookahead=6))
    env = load(case, cd)
    cls = env.cls(cd)
    try:
        for _ in range(2):
            drawn = valid(case, cd)
            if drawn is None:
                continue
            rec, data = drawn
            note(case, cd, rec, data)
            want, _ = cd.decode(data)
            clean = Failing(data)
            cls.create_unpack_read(clean)
            o = env.obj(rec)
            for how in ('raise', 'short'):
                for n in range(clean.done):
                    if clean.done > 30 and rng.random() > 30 / clean.done:
                        continue
                    stream = Failing(data)
                    stream.left, stream.how = n, how
                    if rng.random() < 0.5:
                        target = env.obj(rec)
                        ok, out = attempt(lambda: target.unpack_read(stream))
                        x = target
                    else:
                        ok, out = attempt(lambda: cls.create_unpack_read(stream))
                        x = out
                    if isinstance(out, Violation):
                        raise out
                    case.stats.hit(f'read_faults_{how}')
                    if ok and how == 'raise':
                        raise Violation(f'the stream raised at read {n}, but nothing was reported')
                    if ok:
                        try:
                            got = env.rec(x, cd)
                        except Mismatch as e:
                            raise Violation(f'a read fell short: {e}') from None
                        if not same(got, want):
                            raise Violation(f'read {n} fell short: unpacked {short(got)}, the data '
                                            f'has {short(want)}')
                    elif how == 'raise' and not (isinstance(out, OSError)
                                                 or isinstance(out.__context__, OSError)):
                        raise Violation(f'the exception of the stream became {out!r}')
                usable(case, env, cd, rec, data)
            clean = Failing()
            o.pack_write(clean)
            for n in range(clean.done):
                stream = Failing()
                stream.left = n
                ok, out = attempt(lambda: o.pack_write(stream))
                if isinstance(out, Violation):
                    raise out
                case.stats.hit('write_faults')
                if ok:
                    raise Violation(f'the stream raised at write {n}, but nothing was reported')
                if not isinstance(out, OSError):
                    raise Violation(f'the exception of the stream became {out!r}')
                if not data.startswith(stream.getvalue()):
                    raise Violation(f'before failing, {stream.getvalue()!r} was written, which is '
                                    f'no part of {data!r}')
            usable(case, env, cd, rec, data)
    finally:
        env.unload()


KINDS = {
    'sized': Kind(sized_case, len(SIZED) * 2, len(SIZED) * 30),
    'random': Kind(random_case, 300, 6000),
    'faults': Kind(faults_case, 3000, 40000),
}
