"""Framing: sequences of objects in a stream or buffer."""

from .common import *

ID = 'C04'
QUICK = 4
RULE = (
    'Sequences of objects of several random classes are packed one after another to a stream '
    '(pack_write) and a buffer (pack_into, advanced by serializer.size), then unpacked in order, '
    'from the stream, from the buffer by serializer.size, and alternating between new and '
    'existing objects. Monitors: the bytes are the concatenation of the reference encodings, the '
    'stream position and serializer.size after every operation, equal values, failure at the '
    'end of the data; offsets and positions behind the end. Distinct: signatures and bytes of the sequence.'
)


def sequence(case, cds, n):
    rng = case.rng
    env = load(case, cds)
    b = battery(case, env)
    try:
        items = []
        for _ in range(n):
            cd = rng.choice(cds)
            drawn = draw(case, cd, tries=2)
            if drawn is None:
                continue
            try:
                want, used = cd.decode(drawn[1])
            except RefError:
                continue
            if used != len(drawn[1]):
                continue  # A terminator within a string
            items.append((cd, drawn[0], drawn[1], want))
        if not items:
            return
        total = b''.join(data for _, _, data, _ in items)
        case.stats.case(
            (tuple(cd.sig() for cd, *_ in items), total),
            {'objects': len(items), 'bytes': len(total), 'first': short(items[0][1], 150)},
        )
        # Writing
        stream = io.BytesIO()
        lead = b.guard_bytes(rng.choice((0, 3)))
        stream.write(lead)
        buffer = bytearray(lead + bytes(len(total)) + b'END')
        pos = len(lead)
        for cd, rec, data, _ in items:
            o = env.obj(rec)
            start = stream.tell()
            o.pack_write(stream)
            case.stats.hit('framed_writes')
            if stream.tell() - start != len(data):
                b.fail('pack_write() advanced the stream by the wrong amount',
                       got=stream.tell() - start, want=len(data), value=rec)
            if type(o).serializer.size != len(data):
                b.fail('serializer.size after pack_write()', got=type(o).serializer.size,
                       want=len(data), value=rec)
            o.pack_into(buffer, pos)
            if type(o).serializer.size != len(data):
                b.fail('serializer.size after pack_into()', got=type(o).serializer.size,
                       want=len(data), value=rec)
            pos += type(o).serializer.size
        if stream.getvalue() != lead + total:
            b.fail('objects written to a stream', got=stream.getvalue(), want=lead + total)
        if buffer != lead + total + b'END':
            b.fail('objects packed into a buffer', got=bytes(buffer), want=lead + total + b'END')
        # Reading, with the end of the stream being the end of the last object or not
        for tail in (b'', b.guard_bytes(7)):
            full = lead + total + tail
            stream = io.BytesIO(full)
            stream.seek(len(lead))
            spare = {}
            pos = spos = len(lead)
            for i, (cd, rec, data, want) in enumerate(items):
                cls = env.cls(cd)
                if rng.random() < 0.5:
                    x = cls.create_unpack_read(stream)
                else:
                    x = spare.setdefault(cls, cls.__new__(cls))
                    x.unpack_read(stream)
                spos += len(data)
                case.stats.hit('framed_reads')
                if stream.tell() != spos:
                    b.fail('the stream is not right after the object', got=stream.tell(),
                           want=spos, data=data, number=i)
                got = b.model(x, cd, 'object read from a stream')
                if not same(got, want):
                    b.fail('object read from a stream', got=got, want=want, number=i)
                if cls.serializer.size != len(data):
                    b.fail('serializer.size after reading', got=cls.serializer.size,
                           want=len(data), data=data)
                if rng.random() < 0.5:
                    x = cls.create_unpack_from(full, pos)
                else:
                    x = spare.setdefault(cls, cls.__new__(cls))
                    x.unpack_from(full, pos)
                got = b.model(x, cd, 'object unpacked from a buffer')
                if not same(got, want):
                    b.fail('object unpacked from a buffer', got=got, want=want, offset=pos)
                if cls.serializer.size != len(data):
                    b.fail('serializer.size after unpack_from()', got=cls.serializer.size,
                           want=len(data), data=data, offset=pos)
                pos += cls.serializer.size
            if stream.read() != tail:
                b.fail('data after the objects was consumed')
        # Nothing left
        cd = items[-1][0]
        stream = io.BytesIO(total)
        stream.seek(len(total))
        ok, x = attempt(lambda: env.cls(cd).create_unpack_read(stream))
        try:
            cd.decode(b'')
        except RefError:
            if ok:
                b.fail('an object was read from the end of a stream', got=x)
    finally:
        env.unload()


def random_case(case):
    rng = case.rng
    gen_ = SchemaGen(rng, Profile(consume=0.0, max_fields=4, inherit=0.2))
    cds = [gen_.root() for _ in range(rng.choice((1, 2, 3)))]
    sequence(case, cds, rng.randint(2, 6))


def leaf_case(case):
    leaf = LEAFS[case.index % len(LEAFS)]
    bo = BO_NAMES[case.index // len(LEAFS) % len(BO_NAMES)]
    cd = simple_class('Leaf', [('a', leaf())], bo)
    sequence(case, [cd], 8)


REST = [
    lambda: ConsumeChar(),
    lambda: Uni(ConsumeChar()),
    lambda: Uni(ConsumeChar(), 'utf-16-le'),
    lambda: Tup((ConsumeChar(),)),
    lambda: Tup((Basic('uint8'), Tup((ConsumeChar(),)))),
    lambda: Nest(simple_class(fresh('Rest'), [('r', ConsumeChar())])),
    lambda: Cond(ConsumeChar(), Pred('True', ()), b''),
    lambda: Tup((CharN(0), ConsumeChar())),
]


def beyond_case(case):
    """Offsets and positions behind the end of the data."""
    rng = case.rng
    leafs = REST + LEAFS
    cd = simple_class('Beyond', [('a', leafs[case.index % len(leafs)]())], rng.choice(BO_NAMES))
    env = load(case, cd)
    b = battery(case, env)
    cls = env.cls(cd)
    try:
        for _ in range(4):
            data = bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 5, 40))))
            where = len(data) + rng.choice((0, 1, 2, 7, 300))
            try:
                want, used = cd.decode(b'')
            except RefError:
                want, used = None, 0
            note(case, cd, Rec(cd), data + bytes((where % 251,)))
            spare = cls.__new__(cls)

            def read(stream):
                stream.seek(where)
                x = cls.create_unpack_read(stream)
                if stream.tell() != where:
                    b.fail('position behind the end', got=stream.tell(), want=where)
                return x

            for name, fn, made in (
                ('create_unpack_from', lambda: cls.create_unpack_from(data, where), True),
                ('unpack_from', lambda: spare.unpack_from(memoryview(data), where) or spare, True),
                ('create_unpack_read', lambda: read(io.BytesIO(data)), False),
            ):
                ok, x = attempt(fn)
                if isinstance(x, Violation):
                    raise x
                if not ok:
                    # (struct wants the offset within the buffer, even for no bytes)
                    if want is not None and not made:
                        b.fail(f'{name}() behind the end raised {type(x).__name__}: {x}')
                    continue
                if want is None:
                    b.fail(f'{name}() behind the end made an object', got=x, offset=where)
                if not same(b.model(x, cd, name), want):
                    b.fail(f'{name}() behind the end', got=x, want=want, offset=where)
                if cls.serializer.size != 0:
                    b.fail(f'serializer.size after {name}() behind the end',
                           got=cls.serializer.size, want=0, offset=where, length=len(data))
                case.stats.hit('beyond_the_end')
    finally:
        env.unload()


KINDS = {
    'beyond': Kind(beyond_case, (len(REST) + len(LEAFS)) * 6, (len(REST) + len(LEAFS)) * 300),
    'random': Kind(random_case, 2500, 100000),
    'leaf': Kind(leaf_case, len(LEAFS) * len(BO_NAMES) * 2, len(LEAFS) * len(BO_NAMES) * 50),
}
