"""Runtime monitors around the public API.

A `Battery` runs pack and unpack operations of one object through every route
the library offers, watches what happens to the buffers, streams, objects and
callbacks involved, and judges it against the reference codec of `model`.
"""

from __future__ import annotations

import array
import collections
import copy
import enum
import io
import mmap
import tempfile
from collections import Counter

from . import build, gen
from .model import BO_NAMES, Mismatch, Nest, NetChar, Rec, RefError, SelfRef, TermChar, UnionLA, same

PACK_ROUTES = ('pack', 'pack_into', 'pack_write')
UNPACK_ROUTES = ('unpack', 'unpack_from', 'unpack_read')


class Violation(Exception):
    pass


class TooDeep(Violation):
    pass


class Stats:
    """What the monitors of a run observed."""

    def __init__(self):
        self.counts = Counter()
        self.distinct = set()
        self.samples = []

    def hit(self, name, n=1):
        self.counts[name] += n

    def case(self, key, sample=None):
        self.counts['cases'] += 1
        self.distinct.add(hash(key) & (2**64 - 1))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)


def attempt(fn):
    """(True, result) or (False, exception).  Exhausting memory or the stack is
    no orderly rejection."""
    try:
        return True, fn()
    except RecursionError as e:
        # Might be the data's or the value's fault, see `deep`
        raise TooDeep(f'RecursionError instead of an orderly result: {e}') from e
    except (MemoryError, SystemError) as e:
        raise Violation(f'{type(e).__name__} instead of an orderly result: {e}') from e
    except Exception as e:
        return False, e


def short(x, n=300):
    text = repr(x)
    return text if len(text) <= n else text[: n - 20] + f'...({len(text)} chars)'


class WatchedWriter(io.BytesIO):
    """Logs the writes it gets."""

    def __init__(self, initial=b''):
        super().__init__(initial)
        self.writes = []

    def write(self, data):
        self.writes.append((self.tell(), len(data)))
        return super().write(data)


class WatchedReader(io.BytesIO):
    """Refuses to be written to, and logs how far was read."""

    def __init__(self, data):
        super().__init__(data)
        self.reads = 0

    def read(self, n=-1):
        self.reads += 1
        return super().read(n)

    def write(self, data):
        raise Violation('unpacking wrote to the stream')


class PlainFile:
    """The least a file can be: neither an io class, nor with other methods."""

    def __init__(self, data):
        self.file = io.BytesIO(data)

    def read(self, n=-1):
        return self.file.read(n)

    def write(self, data):
        return self.file.write(data)

    def seek(self, offset, whence=0):
        return self.file.seek(offset, whence)

    def tell(self):
        return self.file.tell()

    def close(self):
        self.file.close()


class Pipe:
    """One end of something like a pipe, which has no positions."""

    def __init__(self, data=b''):
        self.file = io.BytesIO(data)


class Sink(Pipe):
    def write(self, data):
        return self.file.write(data)


class Source(Pipe):
    def read(self, n=-1):
        return self.file.read(n)


def needs_positions(cd, seen=None):
    """Whether unpacking has to look ahead, or read again."""
    seen = set() if seen is None else seen
    if id(cd) in seen:
        return False
    seen.add(id(cd))
    for _, node in cd.fields:
        for sub in node.walk():
            if isinstance(sub, (TermChar, NetChar, UnionLA)):
                return True
            if isinstance(sub, Nest) and needs_positions(sub.cd, seen):
                return True
    return False


class RawFile(io.RawIOBase):
    """To be put under the buffers of io, which read ahead and write behind."""

    def __init__(self, data):
        self.file = io.BytesIO(data)

    def readinto(self, b):
        return self.file.readinto(b)

    def write(self, data):
        return self.file.write(data)

    def seek(self, offset, whence=0):
        return self.file.seek(offset, whence)

    def tell(self):
        return self.file.tell()

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True


def make_stream(rng, data, watched, real=True):
    """A stream with the given contents, at its start.  Those of the last kinds
    allocate as much as they are asked to read, whether there is as much or not."""
    r = rng.random() * (1 if real else 0.85)
    if r < 0.6:
        return watched(data)
    if r < 0.75:
        return io.BytesIO(data)
    if r < 0.85:
        return PlainFile(data)
    if r < 0.95:
        return io.BufferedRandom(RawFile(data), rng.choice((1, 3, 16, 8192)))
    if r < 0.98:
        stream = tempfile.SpooledTemporaryFile(rng.choice((4, 64, 1 << 20)))
    else:
        stream = tempfile.TemporaryFile()
    stream.write(data)
    stream.seek(0)
    return stream


def make_writable(kind, data):
    """A writable buffer with the given contents, and a function to get its
    current contents."""
    if kind == 'bytearray':
        b = bytearray(data)
        return b, lambda: bytes(b)
    if kind == 'memoryview':
        b = bytearray(data)
        return memoryview(b), lambda: bytes(b)
    if kind == 'array':
        b = array.array('B', data)
        return b, lambda: b.tobytes()
    if kind == 'mmap':
        b = mmap.mmap(-1, max(1, len(data)))
        b[: len(data)] = data
        return b, lambda: b[: len(data)]
    if kind == 'subview':
        b = bytearray(b'\xa5\x5a' + data + b'\x5a\xa5')

        def contents():
            if b[:2] != b'\xa5\x5a' or b[-2:] != b'\x5a\xa5':
                raise Violation('packing wrote outside of the memoryview it was given')
            return bytes(b[2:-2])

        return memoryview(b)[2:-2], contents
    raise AssertionError(kind)


WRITABLE = ('bytearray', 'memoryview', 'mmap', 'subview', 'array')
READABLE = ('bytes', 'bytearray', 'memoryview', 'mmap', 'subview', 'array')


def make_readable(kind, data):
    if kind == 'bytes':
        return data, lambda: data
    if kind == 'mmap' and not data:
        kind = 'bytearray'
    return make_writable(kind, data)


def relocated(rec, rng):
    """The same with nested objects changed to other byte orders, or None."""
    found = []

    def copy(v, top=False):
        if type(v) in (list, tuple):
            return type(v)(map(copy, v))
        if type(v) is not Rec:
            return v
        new = Rec(v.cd, {k: copy(x) for k, x in v.vals.items()})
        if not top and rng.random() < 0.7:
            object.__setattr__(new, 'moved', rng.choice(BO_NAMES))
            found.append(new)
        return new

    new = copy(rec, True)
    return new if found else None


class OwnInt(int):
    pass


class OwnFloat(float):
    pass


class OwnStr(str):
    pass


class OwnBytes(bytes):
    pass


class OwnList(list):
    pass


class OwnTuple(tuple):
    pass


def dressed(v, rng):
    """The same value made of instances of subclasses of int, str, bytes, ..."""
    kind = type(v)
    if kind in (list, tuple):
        items = [dressed(x, rng) for x in v]
        if kind is list:
            return rng.choice((list, OwnList))(items)
        if rng.random() < 0.4 and items:
            return collections.namedtuple('Named', [f'f{i}' for i in range(len(items))])(*items)
        return rng.choice((tuple, OwnTuple))(items)
    if kind is int:
        return enum.IntEnum('E', {'A': v}).A if rng.random() < 0.3 else OwnInt(v)
    if kind is str:
        return enum.StrEnum('E', {'A': v}).A if rng.random() < 0.2 else OwnStr(v)
    own = {float: OwnFloat, bytes: OwnBytes}.get(kind)
    if own is not None:
        return own(v)
    if not hasattr(kind, 'serializer'):
        return v
    # NOTE: a copy, it may be (part of) a default
    v = copy.copy(v)
    for name in kind.attrs:
        if hasattr(v, name):
            setattr(v, name, dressed(getattr(v, name), rng))
    return v


class Battery:
    def __init__(self, env, stats, rng):
        self.env = env
        self.stats = stats
        self.rng = rng

    # ---- helpers
    def fail(self, what, **info):
        text = what + ''.join(f'\n    {k} = {short(v, 600)}' for k, v in info.items())
        raise Violation(text)

    def guard_bytes(self, n):
        return bytes(self.rng.randrange(1, 256) for _ in range(n))

    def model(self, x, cd, what):
        try:
            return self.env.rec(x, cd)
        except Mismatch as e:
            raise Violation(f'{what}: {e}') from None

    def ref_enc(self, rec):
        """Expected bytes, and the events which callbacks may see"""
        return rec.cd.enc(rec)

    def size_of(self, cls, ser=None):
        return (cls.serializer if ser is None else ser).size

    # ---- callbacks
    def expected_events(self, rec, packing=True, data=None, pos=0):
        """(id, earlier members) of each callback, according to the reference"""
        log = set()
        preds = {}

        def watch(pid, pred):
            def call(o):
                seen = tuple(
                    self.env.freeze(o.vals.get(f, '<missing>')) for f in pred.fields
                )
                log.add((pid, seen))
                return eval(pred.code, {'len': len}, {'o': o})

            return call

        for pid, pred in self.env.hooks.preds.items():
            preds[pid] = pred
            pred.watch = watch(pid, pred)
        try:
            if packing:
                rec.cd.enc(rec)
            else:
                rec.decode(data, pos)
        except RefError:
            pass
        finally:
            for pred in preds.values():
                pred.watch = None
        return log

    def check_events(self, expected, what):
        log = self.env.hooks.log
        self.stats.hit('callback_events', len(log))
        for event in log:
            if event not in expected:
                self.fail(
                    f'{what}: a condition or decider saw members it should not see',
                    event=event,
                    expected=sorted(map(repr, expected))[:6],
                    pred=self.env.hooks.preds[event[0]].expr,
                )

    # ---- packing
    def pack_bytes(self, o, route, ref=None, kind=None, pre=None, post=None, offset_arg=True):
        """Pack through `route` between guard bytes; returns the packed bytes.
        `ref`: the expected bytes, if known."""
        rng = self.rng
        self.stats.hit(route)
        if route == 'pack':
            out = o.pack()
            if type(out) is not bytes:
                self.fail('pack() did not return bytes', got=out)
            return out
        pre = self.guard_bytes(rng.choice((0, 1, 2, 3, 5, 8))) if pre is None else pre
        post = self.guard_bytes(rng.choice((0, 0, 1, 3, 16))) if post is None else post
        if route == 'pack_write' and rng.random() < 0.06:
            self.stats.hit('pipes_written')
            sink = Sink()
            o.pack_write(sink)
            return sink.file.getvalue()
        if route == 'pack_write':
            # Existing data after the position must only be overwritten
            stream = make_stream(rng, pre + post, WatchedWriter)
            stream.seek(len(pre))
            try:
                result = o.pack_write(stream)
                if result is not None:
                    self.fail('pack_write() returned something', got=result)
                pos = stream.tell()
                stream.seek(0)
                data = stream.read()
            finally:
                stream.close()
            if data[: len(pre)] != pre:
                self.fail('pack_write() changed data before the position of the stream')
            out = data[len(pre) : pos]
            rest = (pre + post)[pos:]
            if data[pos:] != rest:
                self.fail('pack_write() changed data after what it wrote')
            return out
        n = len(ref) if ref is not None else len(o.pack())
        kind = rng.choice(WRITABLE) if kind is None else kind
        fill = self.guard_bytes(n)
        buffer, contents = make_writable(kind, pre + fill + post)
        if kind == 'mmap' and not pre + fill + post:
            return b''
        if not pre and offset_arg and rng.random() < 0.5:
            result = o.pack_into(buffer)
        elif rng.random() < 0.2:
            result = o.pack_into(buffer, offset=len(pre))
        else:
            result = o.pack_into(buffer, len(pre))
        if result is not None:
            self.fail('pack_into() returned something', got=result)
        data = contents()
        if len(data) != len(pre) + n + len(post):
            self.fail('pack_into() resized the buffer', before=len(pre) + n + len(post), after=len(data))
        if data[: len(pre)] != pre:
            self.fail('pack_into() wrote before the offset', kind=kind)
        if data[len(pre) + n :] != post:
            self.fail(
                'pack_into() wrote after the packed data', kind=kind, offset=len(pre), size=n,
                got=data, want=post,
            )
        return data[len(pre) : len(pre) + n]

    def packing(self, rec, routes=PACK_ROUTES, events=True):
        """All packing routes against the reference."""
        env, stats = self.env, self.stats
        ref = rec.cd.enc(rec)
        expected = self.expected_events(rec) if events and env.hooks.preds else None
        o = env.obj(rec)
        before = env.freeze(o)
        for route in routes:
            if expected is not None:
                env.hooks.log = []
            try:
                out = self.pack_bytes(o, route, ref)
            except Violation:
                raise
            except Exception as e:
                self.fail(f'{route}() raised {type(e).__name__}: {e}', value=rec, want=ref)
            finally:
                log, env.hooks.log = env.hooks.log, None
            if out != ref:
                self.fail(f'{route}() packed the wrong bytes', value=rec, got=out, want=ref)
            if expected is not None:
                env.hooks.log = log
                try:
                    self.check_events(expected, route)
                finally:
                    env.hooks.log = None
            size = self.size_of(type(o))
            if size != len(ref):
                self.fail(f'serializer.size after {route}()', got=size, want=len(ref), value=rec)
            if env.freeze(o) != before:
                self.fail(f'{route}() changed the object', before=before, after=env.freeze(o))
        stats.hit('bytes_packed', len(ref))
        return o, ref

    def too_small(self, o, ref, tries=2):
        """pack_into a too small buffer must fail, without touching the rest."""
        rng = self.rng
        for _ in range(tries):
            if not ref:
                return
            pre = self.guard_bytes(rng.choice((0, 1, 4)))
            n = len(ref) - rng.choice((1, 1, rng.randint(1, len(ref))))
            kind = rng.choice(('bytearray', 'memoryview', 'subview', 'array'))
            buffer, contents = make_writable(kind, pre + self.guard_bytes(n))
            ok, _ = attempt(lambda: o.pack_into(buffer, len(pre)))
            self.stats.hit('too_small_buffers')
            data = contents()
            if ok:
                self.fail('pack_into() a too small buffer did not raise', kind=kind,
                          room=n, need=len(ref), value=o)
            if len(data) != len(pre) + n:
                self.fail('failed pack_into() resized the buffer', kind=kind, room=n, now=len(data))
            if data[: len(pre)] != pre:
                self.fail('failed pack_into() wrote before the offset', kind=kind)

    def far(self, n):
        """A large offset for `n` bytes, which may lie across a power of two"""
        rng = self.rng
        power = rng.choice((256, 4096, 32768, 65536, 65536))
        return power + (rng.choice((-1, 0, 1)) if rng.random() < 0.3 else -rng.randint(0, min(n, power)))

    # ---- unpacking
    def read_with(self, cls, route, data, kind=None, target=None, trailing=b'', pre=None,
                  real_file=True, pipe=False):
        """Unpack `data` through `route`; returns the object.  `target`: existing
        object to unpack into."""
        rng = self.rng
        self.stats.hit(('' if target is not None else 'create_') + route)
        name = route if target is not None else 'create_' + route
        owner = target if target is not None else cls
        fn = getattr(owner, name)
        if route == 'unpack_read' and pipe:
            self.stats.hit('pipes_read')
            source = Source(data + trailing)
            out = fn(source)
            self.pos = source.file.tell()
        elif route == 'unpack_read':
            pre = self.guard_bytes(rng.choice((0, 0, 1, 5))) if pre is None else pre
            full = pre + data + trailing
            stream = make_stream(rng, full, WatchedReader, real_file)
            try:
                stream.seek(len(pre))
                out = fn(stream)
                self.pos = stream.tell() - len(pre)
                stream.seek(0)
                if stream.read() != full:
                    self.fail('unpacking changed the stream')
            finally:
                stream.close()
        else:
            offset = 0
            pre = b''
            if route == 'unpack_from':
                pre = self.guard_bytes(rng.choice((0, 0, 1, 2, 3, 7)))
                offset = len(pre)
            full = pre + data + trailing
            kind = rng.choice(READABLE) if kind is None else kind
            if kind == 'mmap' and not full:
                kind = 'bytes'
            buffer, contents = make_readable(kind, full)
            if route == 'unpack_from' and not (offset == 0 and rng.random() < 0.3):
                out = fn(buffer, offset)
            else:
                out = fn(buffer)
            self.pos = None
            if contents() != full:
                self.fail(f'{name}() changed the buffer it unpacked')
            if kind != 'bytes':
                # Nothing of the object may be part of the buffer
                shown = None
                obj = out if target is None else target
                try:
                    shown = self.env.freeze(obj)
                except Exception:
                    pass
                for i in range(len(full)):
                    buffer[i] = full[i] ^ 0xFF
                if shown is not None and self.env.freeze(obj) != shown:
                    self.fail(f'{name}(): the object is an alias of the buffer', kind=kind)
        if target is not None:
            if out is not None:
                self.fail(f'{name}() returned something', got=out)
            return target
        if type(out) is not cls:
            self.fail(f'{name}() returned an object of another type', got=type(out))
        return out

    def spare(self, cd):
        """An existing object to unpack into: without attributes, or with others."""
        cls = self.env.cls(cd)
        if self.rng.random() < 0.3:
            return cls.__new__(cls)
        try:
            return self.env.obj(gen.ValueGen(self.rng).rec(cd))
        except (gen.Skip, RefError):
            return cls.__new__(cls)

    def unpacking(self, cd, data, routes=None, trailing=None, events=True):
        """All unpacking routes against the reference.  Returns the model of
        the unpacked object, or None if the data was to be rejected."""
        env, stats, rng = self.env, self.stats, self.rng
        cls = env.cls(cd)
        try:
            want, used = cd.decode(data)
            error = None
        except RefError as e:
            want, error = None, e
            if 'gives up' in str(e):
                return None
        if trailing is None:
            trailing = self.guard_bytes(rng.choice((0, 1, 4)))
        if want is None or cd.final:
            trailing = b''
        expected = None
        positions = None
        recursive = len(data) > 100 and any(
            isinstance(s, SelfRef)
            for c in cd.classes().values() for _, node in c.fields
            for s in build.walk_local(node)
        )
        if events and env.hooks.preds and want is not None:
            expected = self.expected_events(cd, False, data)
        for route in routes or UNPACK_ROUTES:
            for inplace in (False, True):
                name = ('' if inplace else 'create_') + route
                target = self.spare(cd) if inplace else None
                pipe = route == 'unpack_read' and rng.random() < 0.06
                if pipe:
                    if positions is None:
                        positions = needs_positions(cd)
                    pipe = not positions
                if expected is not None:
                    env.hooks.log = []
                try:
                    ok, x = attempt(
                        lambda: self.read_with(cls, route, data, target=target, trailing=trailing,
                                               real_file=error is None, pipe=pipe)
                    )
                except TooDeep:
                    if recursive:
                        # Documented: typing.Self might hit the recursion limit
                        stats.hit('recursion_limit_reached')
                        return None
                    raise
                finally:
                    log, env.hooks.log = env.hooks.log, None
                if not ok and isinstance(x, Violation):
                    raise x
                if error is not None:
                    if ok:
                        self.fail(
                            f'{name}() accepted malformed data', data=data, got=x, why=error,
                        )
                    stats.hit('rejected')
                    continue
                if not ok:
                    self.fail(
                        f'{name}() raised {type(x).__name__}: {x}', data=data, want=want
                    )
                got = self.model(x, cd, f'{name}() of {short(data)}')
                if not same(got, want):
                    self.fail(f'{name}() unpacked wrong values', data=data, got=got, want=want)
                if self.pos is not None and self.pos != used:
                    self.fail(f'{name}() left the stream at the wrong position',
                              got=self.pos, want=used, data=data)
                size = self.size_of(cls)
                if size != used:
                    self.fail(f'serializer.size after {name}()', got=size, want=used, data=data)
                if expected is not None:
                    env.hooks.log = log
                    try:
                        self.check_events(expected, name)
                    finally:
                        env.hooks.log = None
                stats.hit('accepted')
        if want is not None and routes is None:
            # The unpacked object itself packs as its values promise
            ok, ref = attempt(lambda: want.cd.enc(want))
            if ok:
                ok, out = attempt(x.pack)
                if not ok or out != ref:
                    self.fail('packing the unpacked object again', data=data, got=out, want=ref)
                stats.hit('packed_again')
        return want

    def truncations(self, cd, data, tries=4):
        """Prefixes of valid data."""
        n = len(data)
        if not n:
            return
        cuts = {n - 1, 0, self.rng.randrange(n)}
        while len(cuts) < min(tries, n):
            cuts.add(self.rng.randrange(n))
        for cut in cuts:
            self.unpacking(cd, data[:cut], trailing=b'', events=False)
            self.stats.hit('truncated')

    def mutations(self, cd, data, tries=4):
        for _ in range(tries):
            self.unpacking(cd, self.mutate(data), trailing=b'', events=False)
            self.stats.hit('mutated')

    def mutate(self, data):
        rng = self.rng
        out = bytearray(data)
        for _ in range(rng.choice((1, 1, 2, 4))):
            r = rng.random()
            if not out or r < 0.15:
                out[rng.randint(0, len(out)) : 0] = bytes((rng.randrange(256),))
            elif r < 0.6:
                i = rng.randrange(len(out))
                out[i] = rng.choice((0, 1, 2, 0x7F, 0x80, 0xFF, out[i] ^ 1, (out[i] + 1) & 255,
                                     (out[i] - 1) & 255))
            elif r < 0.8:
                out[rng.randrange(len(out))] = rng.randrange(256)
            else:
                i = rng.randrange(len(out))
                del out[i : i + rng.choice((1, 1, 2, 4))]
        return bytes(out)

    # ---- everything
    def roundtrip(self, rec):
        """Pack by each route, unpack by each route."""
        o, ref = self.packing(rec)
        want = self.unpacking(rec.cd, ref)
        if want is not None:
            ok, again = attempt(lambda: rec.cd.enc(want))
            if ok:
                self.packing(want, events=False)
        if self.rng.random() < 0.15:
            moved = relocated(rec, self.rng)
            if moved is not None and attempt(lambda: rec.cd.enc(moved))[0]:
                self.stats.hit('nested_in_other_byte_orders')
                self.packing(moved, events=False)
        if self.rng.random() < 0.1:
            # Values of subclasses of the usual types
            other = dressed(self.env.obj(rec), self.rng)
            route = self.rng.choice(PACK_ROUTES)
            ok, out = attempt(lambda: self.pack_bytes(other, route, ref))
            if not ok or out != ref:
                self.fail(f'{route}() of values of subclasses of int, str, ...', value=rec, got=out, want=ref)
            self.stats.hit('values_of_subclasses')
        return o, ref, want

    def become(self, o, rec):
        """Give an existing object the values of another, in place."""
        rng = self.rng
        new = dict(zip([n for n, _ in rec.cd.named() if n in rec.vals], self.env.values(rec)))
        items = list(new.items())
        rng.shuffle(items)
        for n, v in items:
            old = getattr(o, n, None)
            want = rec.vals[n]
            if any(old is x for x in self.env.made.values()):
                setattr(o, n, v)  # a default value, other objects use it as well
            elif type(want) is Rec and type(old) is type(v) and rng.random() < 0.7:
                self.become(old, want)
            elif type(v) is list and type(old) is list and rng.random() < 0.7:
                old[:] = v
            else:
                setattr(o, n, v)

    def changed(self, o, recs):
        """One object with changing values, packed and unpacked into on the way."""
        rng = self.rng
        for rec in recs:
            ref = rec.cd.enc(rec)
            if rng.random() < 0.3:
                try:
                    want = rec.cd.decode(ref)[0]
                    ref = want.cd.enc(want)
                except RefError:
                    continue
                if not same(want, rec):
                    continue
                route = rng.choice(UNPACK_ROUTES)
                self.read_with(type(o), route, ref, target=o)
                what = f'{route}() into an object'
            else:
                self.become(o, rec)
                what = 'setting the members of an object'
            for route in rng.sample(PACK_ROUTES, 2):
                ok, out = attempt(lambda: self.pack_bytes(o, route, ref))
                if isinstance(out, Violation):
                    raise out
                if not ok or out != ref:
                    self.fail(f'{route}() after {what}', got=out, want=ref, value=rec)
            self.stats.hit('objects_changed')

    def refused(self, rec, why):
        """Values without an encoding must be refused by every route."""
        env = self.env
        o = env.obj(rec)
        for route in PACK_ROUTES:
            if route == 'pack_into':
                buffer = bytearray(1 << 12)
                ok, out = attempt(lambda: o.pack_into(buffer, 3))
                if len(buffer) != 1 << 12:
                    self.fail('failed pack_into() resized the buffer')
                if buffer[:3] != b'\0\0\0':
                    self.fail('failed pack_into() wrote before the offset')
            elif route == 'pack':
                ok, out = attempt(o.pack)
            else:
                ok, out = attempt(lambda: o.pack_write(io.BytesIO()))
            if ok:
                self.fail(f'{route}() packed an unrepresentable value', value=rec, why=why,
                          got=out)
            self.stats.hit('refused')
